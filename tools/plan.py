"""Which design models and trace specification decide each property"""
IMMERSION = [{"module": "MCImmersion", "cfg": "MCImmersion_" + q, "thorough": "MCImmersion_" + t}
             for q, t in (("2x4", "3x4"), ("4x3", "4x3"), ("2x3", "3x3"), ("5x1", "5x1"), ("1x6", "1x6"))]
PLAN = {
    "X01": {"design": [{"module": "MCLinspace", "thorough": "MCLinspace"}], "trace": "TraceX01"},
    "X02": {"design": [{"module": "MCPeaks"}], "trace": "TraceX02"},
    "U01": {"design": [{"module": "MCUnits"}], "trace": "TraceU01"},
    "D01": {"design": [{"module": "MCCompass"}], "trace": "TraceD01"},
    "C01": {"design": [{"module": "MCModelClock", "cfg": "MCModelClock_" + x} for x in ("station", "gridded", "hourly")], "trace": "TraceC01"},
    "W01": {"design": IMMERSION, "trace": "TraceW01"},
    "W02": {"design": [dict(m, thorough=m["thorough"].replace("3x4", "2x4")) for m in IMMERSION], "trace": "TraceW02"},
    "W03": {"design": [{"module": "MCSplit"}], "trace": "TraceW03"},
    "T01": {"design": [{"module": "MCTracking"}, {"module": "MCTracking", "cfg": "MCTracking_wide"}, {"module": "MCTracking", "cfg": "MCTracking_long"}],
            "trace": "TraceT01"},
    "I01": {"design": [{"module": "MCPchip", "cfg": "MCPchip_line", "thorough": "MCPchip_line_deep"}], "trace": "TraceI01"},
    "I02": {"design": [{"module": "MCPchip", "cfg": "MCPchip_circle", "thorough": "MCPchip_circle_deep"}], "trace": "TraceI02"},
    "G01": {"design": [{"module": "MCRegrid", "thorough": "MCRegrid_deep"}] + [{"module": "MCRegrid", "cfg": "MCRegrid_" + x} for x in ("below", "node", "top")], "trace": "TraceG01"},
    "S01": {"design": [{"module": "MCIntegrals"}], "trace": "TraceS01"},
    "S02": {"design": [{"module": "MCQuery", "thorough": "MCQuery_deep"}, {"module": "MCQuery", "cfg": "MCQuery_one"},
                       {"module": "MCQuery", "cfg": "MCQuery_three", "thorough": "MCQuery_three_deep"}], "trace": "TraceS02"},
    "H01": {"design": [{"module": "MCSummary", "thorough": "MCSummary_three"}], "trace": "TraceH01"},
    "H03": {"design": [{"module": "MCRecordSummary", "thorough": "MCRecordSummary_deep"}], "trace": "TraceH03"},
    "H02": {"design": [{"module": "MCFilter", "thorough": "MCFilter_deep"}], "trace": "TraceH02"},
    "R01": {"design": [{"module": "MCTable", "thorough": "MCTable_deep"}], "trace": "TraceR01"},
    "R02": {"design": [{"module": "MCTable"}], "trace": "TraceR02"},
    "B01": {"design": [{"module": "MCBulletin", "thorough": "MCBulletin_deep"}], "trace": "TraceB01"},
    "F01": {"design": [{"module": "MCPointFile", "thorough": "MCPointFile_deep"}], "trace": "TraceF01"},
    "L01": {"design": [{"module": "MCGlobe", "thorough": "MCGlobe_deep"}], "trace": "TraceL01"},
    "K01": {"design": [{"module": "MCTides", "thorough": "MCTides_deep"}], "trace": "TraceK01"},
    "N01": {"design": [{"module": "MCForecast", "thorough": "MCForecast_deep"}], "trace": "TraceN01"},
    "U02": {"design": [{"module": "MCUnits"}, {"module": "MCRecord", "thorough": "MCRecord_deep"}], "trace": "TraceU02"},
    "V01": {"design": [{"module": "MCRecord", "cfg": "MCRecord_publish", "thorough": "MCRecord_publish_deep"}], "trace": "TraceV01"},
    "V02": {"design": [{"module": "MCShown", "thorough": "MCShown_deep"}], "trace": "TraceV02"},
    "Z01": {"design": [{"module": "MCCartesian", "thorough": "MCCartesian_deep"}], "trace": "TraceZ01"},
    "Y01": {"design": [{"module": "MCContour", "thorough": "MCContour_deep"}], "trace": "TraceY01"},
    "Q01": {"design": [{"module": "MCRebuild", "thorough": "MCRebuild_deep"}], "trace": "TraceQ01"},
    "P01": {"design": [{"module": "MCDispersion", "thorough": "MCDispersion_deep"}, {"module": "MCSurf", "thorough": "MCSurf_deep"}], "trace": "TraceP01"},
    "E01": {"design": [{"module": "MCSun", "thorough": "MCSun_deep"}], "trace": "TraceE01"},
    "O01": {"design": [{"module": "MCDesk", "thorough": "MCDesk_deep"}, {"module": "MCDesk", "cfg": "MCDesk_seas"}], "trace": "TraceO01"},
    "A01": {"crate": "full", "design": [{"module": "MCAddress"}, {"module": "MCConstraint", "thorough": "MCConstraint_deep"}, {"module": "MCConstraint", "cfg": "MCConstraint_two"}], "trace": "TraceA01"},
    "J01": {"crate": "full", "design": [{"module": "MCTimeAxis", "thorough": "MCTimeAxis_deep"}], "trace": "TraceJ01"},
    "M01": {"crate": "full", "design": [{"module": "MCColumns", "thorough": "MCColumns_deep"}, {"module": "MCTable", "cfg": "MCTable_met", "thorough": "MCTable_met_deep"}], "trace": "TraceM01"},
    "A02": {"crate": "full", "design": [{"module": "MCStations", "thorough": "MCStations_deep"}, {"module": "MCStations", "cfg": "MCStations_flags"}], "trace": "TraceA02"},
    "M02": {"crate": "full", "design": [{"module": "MCArchive", "thorough": "MCArchive_deep"}], "trace": "TraceM02"},
    "J02": {"crate": "full", "design": [{"module": "MCGridField", "thorough": "MCGridField_deep"}], "trace": "TraceJ02"},
    "J03": {"crate": "full", "design": [{"module": "MCGridRecord", "thorough": "MCGridRecord_deep"}], "trace": "TraceJ03"},
}
NOT_APPLICABLE = {}
