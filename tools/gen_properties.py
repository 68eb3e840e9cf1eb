import json
P=[]
def p(id,title,statement,over,text,why,files,mech=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[{"name":m[0],"where":m[1]} for m in (mech or [(o,files[0]) for o in obs])],**({"observe_at":obs} if obs else {}))))
p("W01","Partitioning gives every spectral cell a valid, connected swell partition",
 "Partitioning any finite directional spectrum (with or without smoothing, 2 to 255 levels) succeeds and gives every cell exactly one partition number from 1 to N, with every number used and the reported count equal to N+1. The cells of one partition always form one connected region of the frequency-direction grid, where the direction axis wraps around north and the frequency axis does not. Data whose length does not match the grid is refused with an error, never a crash.",
 ["inputs","configurations"],"all grids (>= 2 frequencies, >= 3 directions, also thin ones), all finite energies incl. constant and plateaus, all level counts, blur on/off",
 "One unit test runs one random grid and asserts nothing about the labels but that the call succeeds; label totality and connectivity are statements about every cell of every spectrum.",
 ["src/tools/analysis.rs","src/spectra.rs"],[("immersion watershed","src/tools/analysis.rs watershed"),("circular neighbour topology","src/tools/analysis.rs nearest_neighbors")],["Spectra::partition","watershed"])
p("W02","Partitions are the basins of the spectrum's energy peaks",
 "Without smoothing, partitioning yields exactly one partition per energy peak of the level-discretised spectrum (a peak being a connected plateau with no higher neighbour, on the grid whose direction axis wraps around north), so a swell straddling north is one partition. Each cell joins the basin reached by flooding the inverted spectrum level by level from the peaks, and a cell where two floods meet joins the neighbouring partition whose energy is closest to its own.",
 ["inputs","configurations"],"every finite spectrum on every grid and every level count, in particular plateaus, ridges between basins, and peaks on the north seam or on the first and last frequency",
 "The existing tests compare the neighbour list of a few cells and never look at a partition result; basin membership depends on level order, plateaus, queue order and the seam together.",
 ["src/tools/analysis.rs"],[("level-by-level flooding with a FIFO and fictitious pixel","src/tools/analysis.rs watershed"),("watershed pixel re-affiliation","src/tools/analysis.rs watershed final passes")],["watershed","nearest_neighbors"])
p("W03","Splitting a spectrum by partition conserves every cell's energy",
 "Splitting a spectrum by its partitions gives spectra on the same axes in which each cell carries its original energy in exactly the one spectrum of its own partition and zero in all others, so the parts sum back to the original. Asking for a limited number of parts gives the same leading parts.",
 ["inputs"],"all spectra, all partition maps, all limits",
 "No test splits a spectrum; conservation is a statement about every cell and every partition map.",
 ["src/spectra.rs"],[("component mask","src/spectra.rs from_component / split_from_components")],["Spectra::split_from_components"])
p("T01","Swell partitions are tracked through time under one identity",
 "Tracking a time series returns the same steps with the same swells in the same order and nothing but their partition ids changed; ids are unique within a step, and the first step keeps its own ids. A swell may inherit the id of at most one swell of the immediately preceding step and only if their directions differ, measured around the circle, by no more than the allowed angle; each swell is matched to its best-scoring predecessor and competing claims go to the better score. Every swell that inherits no id gets one never used earlier in the series.",
 ["histories","inputs"],"all histories of swell lists (including empty steps, equal times, directions around north, any distinct starting ids) and all tolerances",
 "There is no test of tracking at all; identity across time is a property of whole histories.",
 ["src/tools/waves.rs"],[("greedy best-score matching","src/tools/waves.rs track_partitions")],["track_partitions"])
p("U01","Unit conversions are physically right, reversible and idempotent",
 "Converting a value between two related units agrees with the physical definition to within 0.2 percent (0.2 degrees for temperature), so converting there and back returns the original within that tolerance. Converting a quantity to a unit system changes its unit to that system's unit of the same physical kind (or leaves value and unit alone where the system has none), is idempotent, and a missing value stays missing.",
 ["inputs"],"all values (negative, zero, fractional, large), all unit pairs, all unit systems",
 "No test converts a value; the conversion table has 20 units and a separate system table that must agree for every pair and every value.",
 ["src/units/mod.rs","src/dimensional_data.rs"],[("conversion table","src/units/mod.rs convert / convert_system"),("value+unit update","src/dimensional_data.rs to_units")],["Unit::convert","DimensionalData::to_units"])
p("U02","Converting a record converts all of its quantities consistently",
 "Converting any record, swell or swell summary to a unit system converts every unit-bearing quantity it holds, including each swell component, exactly as converting that quantity alone would, and alters nothing else. Converting to English units and back to metric restores every value within conversion tolerance.",
 ["inputs","histories"],"all records (wave, bulletin, point spectra, swell, summary; in the full crate also met and latest-observation records), all conversion sequences between unit systems",
 "No test converts a record; forgetting one of a dozen fields, or converting one twice, compiles and passes.",
 ["src/data/wave_data_record.rs","src/data/forecast_cbulletin_wave_data_record.rs","src/data/forecast_spectral_wave_data_record.rs","src/swell.rs"],None,["UnitConvertible::to_units"])
p("D01","Directions stay on the compass and agree with their names",
 "For every whole degree 0-360 the compass point named for a direction is the 16-point sector containing it, reversing a direction turns it by exactly 180 degrees into 0-359 with its name updated, and reversing twice restores it. Converting a direction from the towards or meteorological convention lands in 0-360 at the right bearing; two directions are opposite exactly when they lie within 10 degrees of 180 apart, in either order. Compass names and degree numbers, also padded with zeros, parse back to the direction that printed them, and anything else is rejected.",
 ["inputs"],"all degrees 0-360, all 16 names in any letter case, all three conventions, all pairs",
 "Tests touch one or two directions; the sector tables have 16 hand-written edges.",
 ["src/units/direction.rs","src/units/cardinal_direction.rs"],None,["Direction","CardinalDirection","DirectionConvention::normalize"])
p("C01","The chosen model run is always the latest available cycle",
 "For any instant the model run chosen is the latest run whose cycle hour is on the run grid (every 6 hours for station and gridded GFS, every hour for hourly models) and which is at least the source's latency old (6, 5 and 2 hours), so it never lies in the future, never goes backwards as time advances, and crosses day, month, leap-day and year ends correctly. Flooring a time to an hour multiple keeps its date and drops minutes and seconds; listing the runs of a window gives every 6-hourly cycle from the one in effect at the start up to the end, in order without gaps or repeats.",
 ["inputs"],"all instants (any sub-second), all windows, all multipliers 1-24",
 "Five hand-picked instants are tested, none near a month, leap-day or year end.",
 ["src/tools/date.rs"],None,["closest_gfs_model_stations_datetime","closest_gfs_model_gridded_datetime","closest_hourly_model_datetime","gfs_model_fmrc_datetimes"])
p("R01","Observation tables yield exactly their well-formed rows, in order",
 "Reading an observation table (wave summaries, spectral rows, GRIB indexes) yields one record for every well-formed row, in file order, and nothing for comment lines, blank lines or malformed rows (too few columns, non-numeric or impossible dates, unparsable numbers); a bad row never stops the reading, disturbs its neighbours or crashes. A malformed row handed to a record parser directly is reported as an error.",
 ["inputs","fault_sequences"],"all tables: every sequence of good, comment, blank and damaged rows, every position of damage, any spacing",
 "Tests parse one good row each; files from the network contain truncated and damaged rows anywhere.",
 ["src/data/wave_data_record.rs","src/data/spectral_wave_data_record.rs","src/data/grib_index_record.rs","src/data/parseable_data_record.rs"],None,["*Collection::records","from_data_row"])
p("R02","Each observation field comes from its own column; MM means missing",
 "Every field of a parsed observation takes its value from the column the file's header assigns to it and from no other, with the declared unit; a missing marker or unparsable entry makes exactly that field missing and leaves the others intact. The date is the row's UTC date and time, the steepness word is recognised in each of its published spellings, and spectral rows pair each value with its own frequency, with the optional separation frequency recognised.",
 ["inputs"],"all rows: every assignment of distinct values and missing markers to columns",
 "The tests check two or three fields of one row, where several columns hold equal values.",
 ["src/data/wave_data_record.rs","src/data/spectral_wave_data_record.rs","src/data/grib_index_record.rs","src/units/steepness.rs","src/dimensional_data.rs"],None,["from_data_row","SwellProvider::swell_data"])
p("B01","Wave bulletins date their forecasts correctly and keep every component",
 "Each row of a wave bulletin becomes a forecast at the first date on or after the model run's day with the row's day number and hour, across month, leap-day and year ends; its significant height and its swell components (height, period, direction) appear in column order, heights and energies metric. Rows that are malformed or name an impossible date are skipped without affecting the others and without crashing, and a header without location or cycle is an error; hemispheres of the location are honoured.",
 ["inputs","fault_sequences"],"all run dates, all row day/hour tokens, 0-6 components, all damaged rows and headers",
 "One row of one May run is tested; rollover in December, leap years and damaged rows are not.",
 ["src/data/forecast_cbulletin_wave_data_record.rs"],None,["ForecastCBulletinWaveRecordCollection::records","from_data_row"])
p("F01","Point-spectra files yield exactly their complete, intact records",
 "Reading a WAVEWATCH III point-spectra file yields, in order, one record for each complete record of the file with its own date, position, wind, current and exactly frequencies x directions energies, and the run's reference date in all of them. Wherever the file is cut the iteration ends after the last complete record, and a damaged record is dropped without crashing or corrupting the records around it; a header that is damaged or cut is reported as an error.",
 ["inputs","crash_points","fault_sequences"],"all axis sizes up to 99, all numbers of values per line, every truncation point, every damaged line",
 "Only the header of one file is tested; truncated downloads and overflowed Fortran numbers are the normal failure.",
 ["src/data/forecast_spectral_wave_data_record.rs"],None,["ForecastSpectralWaveDataRecordCollection::records","ForecastSpectralWaveRecordIterator"])
p("I01","Shape-preserving interpolation is exact, bounded and monotone",
 "Interpolating tabulated data returns the tabulated value at every knot, the end values outside the table, and between two knots a value between the two knot values that moves monotonically from one to the other, with one slope into and out of each inner knot; straight-line data is reproduced exactly. Interpolating many points equals interpolating each, and shifting or scaling the table shifts or scales the result.",
 ["inputs"],"all strictly increasing tables of 2 or more points, unevenly spaced, any values, all query points",
 "Eight tests use evenly spaced tables of at most five points; overshoot depends on the spacing and slopes of neighbouring intervals.",
 ["src/tools/interpolation.rs"],None,["PchipInterpolator"])
p("I02","Directional interpolation has no seam at north",
 "Interpolating around the compass is periodic (0 and 360 degrees give the same value), returns the tabulated value at every tabulated direction, and between two neighbouring directions, including the last and first across north, stays between their two values. Rotating the table and the query together leaves the result unchanged.",
 ["inputs"],"all sets of distinct directions in 0-360 (1 or more), all values, all query directions and rotations",
 "Tests use one evenly spaced four-point compass; the seam is sampled twice.",
 ["src/tools/interpolation.rs"],None,["circular_pchip_interpolate"])
p("G01","Regridding a spectrum never invents, loses or misplaces energy",
 "Regridding a spectrum onto its own frequencies and directions returns its own energies; on any other grid every result lies between the smallest and largest of the source energies enclosing it (so between zero and the largest source energy), is zero below the lowest source frequency, equals the highest source frequency's values above it, and does not depend on the order or convention in which the source lists its directions. The result carries exactly the requested axes, in the from-direction convention.",
 ["inputs","configurations"],"all source spectra (rotated, unsorted, any convention), all target grids",
 "No test regrids a spectrum.",
 ["src/spectra.rs","src/tools/interpolation.rs"],None,["Spectra::interpolate_to_grid"])
p("S01","Spectral integrals and lookups agree with the stored grid",
 "Integrating a spectrum over direction then frequency gives the same total as over frequency then direction; the zeroth moments equal those integrals, moments scale linearly with energy, first directional moments weigh each direction by its cosine and sine, and the mean direction at a frequency is that of the resultant of its energies (for energy in a single direction, that direction; in the from convention, 0-360). Looking up a cell, its indices, its bin widths and the energy range agrees with the stored grid.",
 ["inputs"],"all grids, energies, moment orders and conventions",
 "No test integrates a spectrum.",
 ["src/spectra.rs","src/tools/vector.rs"],None,["Spectra::oned","mom_f","mom_d","mean_wave_direction_f","energy_range"])
p("S02","Point queries of a spectrum bracket correctly and interpolate within cells",
 "For any frequency within the axis and any direction, the bracketing bins are the neighbouring bins that enclose it, wrapping from the last direction to the first. The interpolated energy equals the stored energy at a grid node and otherwise is the bilinear blend of the four enclosing nodes, always finite and between their smallest and largest value. An axis read at a whole index gives that bin's own value, and between indices the proportional value.",
 ["inputs"],"all ascending axes, all energies, all query points incl. nodes, edges and the north seam",
 "No test queries a spectrum.",
 ["src/spectra.rs","src/tools/analysis.rs"],None,["Spectra::closest_k","closest_th","interp_energy","ik","ith"])
p("H01","Swell summaries account for all partitions and rank them by energy",
 "Summarising a partitioned spectrum gives at most one swell component per partition, carrying that partition's id, its own significant height (at least 0.1), peak period (the period of its most energetic frequency) and mean direction (0-360, in the from convention); components are ordered by non-increasing energy and the summary energy is their sum. The squares of all partitions' heights add up to the square of the summary height, and a component depends only on the cells of its own partition.",
 ["inputs","configurations"],"all spectra, partition maps, conventions, depths and winds",
 "No test that runs here extracts swells; ordering, attribution and conservation are statements over every spectrum.",
 ["src/tools/waves.rs","src/spectra.rs","src/swell.rs"],None,["Spectra::swell_data","pt_mean"])
p("H02","Only mirrored duplicates are filtered from swell components",
 "Filtering a swell summary removes exactly those components whose printed period equals that of an earlier (more energetic) first component of that period and whose direction is opposite to it, keeps all others in order and unchanged, and never fails, also when directions or periods are missing.",
 ["inputs"],"all component lists incl. missing values and several groups of equal period",
 "No test filters components.",
 ["src/swell.rs","src/units/direction.rs"],None,["SwellSummary::filtered_components","probable_false_components"])
p("H03","Spectral records summarise their own spectrum, whatever the units",
 "The swell summary of a buoy's directional spectrum record and of a forecast point record is the summary of the record's own spectrum divided into partitions (as H01 has it): every component stands for one partition of it, with that partition's height, peak period and mean direction, and the whole for all of it. It is the same whether the record's other quantities are in metric or English units, present or missing. Removing mirrored components never removes the strongest one. A record is refused a summary only when its spectrum cannot be partitioned.",
 ["inputs","configurations"],"all spectra, conventions, depths and winds, both kinds of record",
 "No test that runs here takes the swell data of a spectral record.",
 ["src/data/directional_spectral_wave_data_record.rs","src/data/forecast_spectral_wave_data_record.rs","src/spectra.rs","src/tools/waves.rs"],None,["SwellProvider::swell_data"])
p("L01","Positions normalise, bound and measure correctly anywhere on the globe",
 "Longitudes convert between the 0-360 and -180-180 forms without changing the meridian, and latitudes likewise (poles excepted). Containment in a longitude-latitude box is the same whichever longitude form the box or the point uses, including boxes crossing the Greenwich or date line and boxes spanning the globe. The distance between two places is the great-circle distance in the chosen unit system: zero exactly for the same place, symmetric, never more than half the circumference, obeying the triangle inequality, equal along meridians and the equator to radius times angle, and unaffected by longitude form.",
 ["inputs"],"all positions and boxes, both unit systems",
 "Tests cover one place and two boxes, none crossing Greenwich; distance is untested.",
 ["src/location.rs"],None,["Location::distance","within_bbox","relative_longitude","absolute_longitude"])
p("K01","Tide predictions and stations are read and addressed faithfully",
 "Tide predictions are read in order with exact UTC minute, value (number or numeric string) and optional high/low event, and malformed predictions are an error rather than a crash; a written prediction list reads back unchanged. A station is found by id exactly when it is listed, a station list reports its count, its map feature puts longitude before latitude, and a prediction address names the station, datum, interval, units and the exact window.",
 ["inputs"],"all prediction documents, station lists, windows, datums, intervals and unit systems",
 "Tests read two sample files and build one address without looking at it.",
 ["src/data/tidal_data_record.rs","src/tide_station.rs"],None,["TidalDataRecordCollection::from_json","TideStations","TideStation::tidal_data_url"])
p("N01","Weather forecasts keep each period's values, units and absences",
 "Reading an hourly or daily weather forecast yields every period in order with its own times, day flag, temperature, dewpoint, humidity, wind direction and texts in the stated units; the wind speed is the first number of its text in the unit the text names, also for ranges. A value absent from one period is missing in that period only and neither fails the file nor crashes.",
 ["inputs"],"all forecast documents: every combination of wind texts, null fields, units and period counts",
 "One sample file is read in full, whose winds are all single numbers and which has no nulls.",
 ["src/data/nws_weather_forecast_data_record.rs","src/units/mod.rs"],None,["NwsWeatherForecastDataRecordCollection::records"])
p("V01","Published values read back as they were written",
 "Writing any quantity, direction, swell, spectrum or record to JSON and reading it back gives the same data (numbers to within float printing). Unit labels and steepness words printed by the library are recognised by its own parsers.",
 ["inputs"],"all values incl. missing ones, all units, all record kinds",
 "One quantity is round-tripped in tests and its content is not compared.",
 ["src/dimensional_data.rs","src/units/mod.rs","src/units/steepness.rs","src/swell.rs","src/spectra.rs"],None,["Serialize/Deserialize","Unit::from","Steepness::from_str"])
p("V02","Values in words say what the values are",
 "A quantity in words is its number to the nearest tenth with its own unit's abbreviation, a direction its whole degrees with the name of its compass point, a swell its height, period and direction in turn; a missing value is shown as N/A, has no text of its own, and is never shown as (or read as) a number, nor the other way around. Reading a table field gives its number with the name and unit it was asked under, and nothing from what is no number. Failures say what went wrong, each kind differently and with its cause.",
 ["inputs"],"all units, numbers of either sign around every rounding edge, absent values, all directions",
 "No test looks at the text of a quantity, swell or failure; missing values and rounding edges need all of them.",
 ["src/dimensional_data.rs","src/units/mod.rs","src/units/direction.rs","src/swell.rs","src/data/parseable_data_record.rs"],None,["Display for DimensionalData, Direction, Swell, UnitSystem, SwellProviderError, DataRecordParsingError","try_string","get_value","from_raw_data"])
p("X01","Evenly spaced ranges behave as one sequence consumed from both ends",
 "A range of n evenly spaced values yields n values starting at the first bound and ending at the last, evenly spaced; taking from the front and the back in any interleaving yields each element exactly once, the reported remaining length is always exact, and an exhausted range stays exhausted.",
 ["histories","inputs"],"all n, all bounds, all interleavings of front and back reads",
 "One forward pass of five elements is tested, with assertions that cannot fail for small values.",
 ["src/tools/linspace.rs"],None,["linspace"])
p("X02","Sorting, binning and peak-finding helpers obey their contracts",
 "Index sorting returns a stable ascending permutation; differences have one entry per element and telescope (single elements and empty input included without crashing); binning is monotone and every value lies between the value its bin unbins to and the next bin's; minimum and maximum ignore missing (NaN) entries. Peak detection reports strictly alternating maxima and minima, in order, each separated from the next by more than the threshold.",
 ["inputs"],"all vectors incl. ties, NaN, empty and single-element ones, all thresholds",
 "Each helper is tested on one vector.",
 ["src/tools/vector.rs","src/tools/analysis.rs"],None,["argsort","diff","bin","unbin","min_max","detect_peaks"])
p("Z01","Cartesian plots show, at every pixel, the nearest spectral bin",
 "Projecting spectral data to an image of size n gives n x n pixels, each showing the value of the bin nearest to it among those within the period limit, where a bin lies at its from-direction (north up) and at a radius proportional to its (scaled) period, the limit period touching the edge. Reusing a prepared projection gives the same image as projecting directly, for any data on that grid.",
 ["inputs","configurations"],"all grids, conventions, sizes, period limits and scalings",
 "No test projects a spectrum.",
 ["src/spectra.rs"],None,["Spectra::project_cartesian","compute_cartesian_projection_map","project_cartesian_with_map"])
p("Y01","Contours come out one per threshold, in order, inside the grid",
 "Contouring a grid for two or more different thresholds gives one feature per threshold in ascending order, with its normalised level running from 0 to 1 and its label, with or without a coordinate transform; each encloses exactly the cells at or above its threshold, and every coordinate is the requested transform of a position inside the grid. Longitude-latitude contours stay inside the given bounds (closed up around the globe where a fine grid goes all the way round) and treat missing cells as below every threshold. A spectrum's contours, of calm seas too, lie at the periods and directions of the bins they pass between.",
 ["inputs"],"all grids, thresholds, bounds and transforms",
 "The contouring test that runs here only writes a file.",
 ["src/tools/contour.rs","src/spectra.rs"],None,["compute_contours","compute_latlng_gridded_contours","Spectra::contoured"])
p("Q01","Buoy directional spectra are rebuilt frequency by frequency",
 "Building a directional spectrum from buoy coefficients gives a non-negative energy for each frequency and direction that depends only on that frequency's coefficients, is proportional to its energy, symmetric about the mean direction when both directions coincide, and is zero for a frequency any of whose coefficients is missing (999 or 999.9 markers). Where no value had to be clipped, integrating over evenly spaced directions returns the frequency's energy.",
 ["inputs"],"all coefficient sets incl. missing markers at any position, all evenly spaced direction axes",
 "No test that runs here builds a directional spectrum.",
 ["src/data/directional_spectral_wave_data_record.rs","src/tools/math.rs"],None,["DirectionalSpectralWaveDataRecord::new","from_data_records"])
p("P01","Wave physics helpers satisfy their governing relations",
 "The wavelength solved for a period and depth satisfies the linear dispersion relation, grows with period and with depth and never exceeds the deep-water wavelength; the approximate wavenumbers agree with it within half a percent, the group travels at half to all of the wave's speed as linear theory has it, and speed equals wavelength times frequency. Refraction follows Snell's law and shoaling the group speed; wave energy goes with the squares of height and period, and steepness with height over wavelength. The peak frequency of swell from afar rises by g t / 4 pi d; that of a wind sea falls as the duration-limited growth law has it: not at all in no time, faster in stronger wind, and by as much in two spells one after the other as in both together. Wind vectors convert to their speed and from-direction in 0-359. Breaking heights are refused exactly for waves coming from behind the beach, also across north, do not change when swell and beach are turned together, and grow with offshore height.",
 ["inputs"],"all periods 2-30 s, depths 1-5000 m, wind vectors, swell and beach angles",
 "Only one wind vector is tested; no physics helper is.",
 ["src/tools/waves.rs","src/tools/math.rs"],None,["ldis","wavenu3","wavenuma","celerity","wavelength","scalar_from_uv","estimate_breaking_wave_height"])
p("E01","Sunrise and web addresses follow the place and time they are asked for",
 "Solar events exist exactly for valid coordinates where the sun rises and sets on that day, and are then those of the sunrise equation: sunset follows sunrise within a day, around the place's solar noon on the (UTC) day asked for, and eastern places see sunrise earlier. They do not depend on the longitude form used nor on the time of the day. Weather service addresses contain exactly the requested position, office and grid cell.",
 ["inputs"],"all places and days, polar day and night included",
 "One place on one day is tested and addresses are not.",
 ["src/solar.rs","src/weather.rs"],None,["calculate_solar_events","create_points_url"])
p("O01","The same forecast tells the same swells however it is gone about",
 "What a forecast file's record tells of the sea - the summary and its swells, the components left without mirrored ones, what its spectrum shows - depends on that record alone: not on whether it was read by itself, as a part or with the whole file, converted to other units, stored as JSON and read back, asked before or asked in another order. A swell summarised without the rest of its sea is the same swell and all there is. Dates and depths survive every such handling. Following swells through a forecast keeps the rule of tracking at every step, follows exactly the swells told, and gives a record identities that depend neither on the units nor on how far the forecast is followed beyond it.",
 ["inputs","histories"],"all files of evolving seas, all sequences of reading, converting, storing, telling, filtering, splitting and following",
 "No test takes a record through more than one of these operations, and none compares two ways to the same answer.",
 ["src/data/forecast_spectral_wave_data_record.rs","src/spectra.rs","src/swell.rs","src/tools/waves.rs","src/units/direction.rs"],None,["ForecastSpectralWaveRecordIterator","swell_data","to_units","track_partitions","serde_json"])
p("A01","Data addresses name exactly what was asked for",
 "The addresses of buoy files, archives, forecasts and gridded output name exactly the requested source, station, kind of data, run and hour, the run being the latest available then. OPeNDAP constraints are written with exactly the variables and index ranges they hold, read back as the same, and a malformed constraint is an error, never a crash.",
 ["inputs"],"all stations, runs, variables and index ranges, all well- and malformed constraint texts",
 "The files concerned are left out of the offline build, so no test of them runs; each of theirs samples one address.",
 ["src/tools/dap.rs","src/model/gfswave.rs","src/model/gefswave.rs","src/model/nwps.rs","src/buoy_station.rs"],None,["DapConstraint","format_dods_url","NOAAModel::create_url","BuoyStation urls"])
p("J01","Forecast hours and output numbers correspond",
 "A model's output number and the forecast hour it holds convert into each other without loss for every output, also across the change of spacing; the hours strictly increase with the number. Each named model puts out at its own spacing (GFS hourly to hour 120 and three-hourly from there, GEFS three-hourly to hour 240 and six-hourly from there, NWPS hourly), under an identifier of its own. Hours between two outputs belong to the earlier one, and ranges list each element's counterpart in order.",
 ["inputs"],"all output numbers and forecast hours of every model",
 "The files concerned are left out of the offline build; a round trip over every output is never tested.",
 ["src/model/noaa_model.rs"],None,["hour_for_index","index_for_hour","hours_for_hour_range"])
p("M01","Meteorological and latest observations are read whole, column by column",
 "Reading a meteorological or latest-observation table yields one record per data row, in file order, with the row's UTC minute, station and place, each quantity taken from its own column, missing markers absent, and rows damaged in their date or cut short left out or refused, never a crash nor a shift of columns. The records are in the units asked for and convert each quantity by its own rule; their maps name each quantity they hold, with its unit.",
 ["inputs"],"all tables: every quantity, absent or present at every place, damaged rows at any position, both unit systems",
 "The files concerned are left out of the offline build; one sample file each is read otherwise.",
 ["src/data/meteorological_data_record.rs","src/data/latest_obs_data_record.rs"],None,["MeteorologicalDataRecordCollection::records","LatestObsDataRecordCollection::records","to_units"])
p("A02","Buoy stations are listed as the directory has them",
 "Reading the active-stations directory yields every listed station once, in order, with its id, owner, programme, kind, place and data flags; a station counts as active exactly when one of its data flags is set. A station is found by id exactly when listed, its name is the directory's text without the id, map features put longitude before latitude, and a list written to JSON reads back unchanged.",
 ["inputs"],"all directories: any number of stations, attributes present or absent, every combination of flags",
 "The file concerned is left out of the offline build; one directory is counted otherwise.",
 ["src/buoy_station.rs"],None,["BuoyStations::from_raw_data","BuoyStation::is_active"])
p("M02","Archived observations give one record per time, variable by variable",
 "Reading archived meteorological or spectral wave observations yields one record per time of the archive, in order, with each quantity taken from its own variable at that time (and frequency), missing markers absent and units as published.",
 ["inputs"],"all archives: any number of times, frequencies and missing markers at any position",
 "The file concerned is left out of the offline build; one sample archive is read otherwise.",
 ["src/data/swden_wave_data_record.rs","src/data/meteorological_data_record.rs"],None,["SwdenWaveDataRecordCollection::records","StdmetDataRecordCollection::records"])
p("J02","A query of gridded data at a place gives the data there",
 "Asking a gridded forecast for a place within its bounds gives the value of the nearest grid point, the values of exactly the points within the tolerance (missing ones left out), or the bilinear interpolation of the four around it, wherever the grid starts, whichever way its rows and columns run, across Greenwich and the date line, and in either longitude form. Outside its bounds, or without data, the answer is an error, never a crash. Contours of a field in the units asked for are those of the field given in these units, every other threshold labelled with them.",
 ["inputs"],"all regular grids (either direction, any start), places, tolerances, missing cells and unit systems",
 "The file concerned is left out of the offline build, and no test of it queries a grid.",
 ["src/model/noaa_model.rs"],None,["NOAAModel::query_location_data","query_location_tolerance","interp_location_data","contour_data"])
p("J03","Records made of gridded forecasts average the data around the place",
 "The record made of a time's gridded messages at a place holds the mean of each variable's values around it, directions averaged around the circle, with the wind absent where it has no data and exactly the wave systems that are complete there, the highest first; the order of the messages does not matter. Where height, period or direction of the waves is missing there is an error, not a record. The record converts to other unit systems and reads back from JSON unchanged.",
 ["inputs"],"all sets of messages, complete or not, in any order, at all places, directions across north included",
 "The file concerned is left out of the offline build, and no test makes such a record.",
 ["src/data/gfs_wave_grib_point_data_record.rs"],None,["GFSWaveGribPointDataRecord::from_messages","to_units"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),[ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
