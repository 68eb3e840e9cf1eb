----------------------------- MODULE Dispersion -----------------------------
(* Linear waves of period T over the depth h. With x the depth in radians of  *)
(* the wave (2 pi h / L):  x tanh x = 4 pi^2 h / (g T^2), g = 9.81 m/s2, or    *)
(* L = g T^2 / (2 pi) tanh x.                                                 *)
EXTENDS Integers, Sequences
\* tanh in 1/100000 at every 0.02 up to 6.5
Table == <<0, 2000, 3998, 5993, 7983, 9967, 11943, 13909, 15865, 17808, 19738, 21652, 23550, 25430, 27291,
    29131, 30951, 32748, 34521, 36271, 37995, 39693, 41364, 43008, 44624, 46212, 47770, 49299, 50798,
    52267, 53705, 55113, 56490, 57836, 59152, 60437, 61691, 62915, 64108, 65271, 66404, 67507, 68581,
    69626, 70642, 71630, 72590, 73522, 74428, 75307, 76159, 76987, 77789, 78566, 79320, 80050, 80757,
    81441, 82104, 82745, 83365, 83965, 84546, 85106, 85648, 86172, 86678, 87167, 87639, 88095, 88535,
    88960, 89370, 89765, 90147, 90515, 90870, 91212, 91542, 91860, 92167, 92462, 92747, 93022, 93286,
    93541, 93786, 94023, 94250, 94470, 94681, 94884, 95080, 95268, 95449, 95624, 95792, 95953, 96109,
    96259, 96403, 96541, 96675, 96803, 96926, 97045, 97159, 97269, 97375, 97477, 97574, 97668, 97759,
    97846, 97929, 98010, 98087, 98161, 98233, 98301, 98367, 98431, 98492, 98551, 98607, 98661, 98714,
    98764, 98812, 98858, 98903, 98946, 98987, 99026, 99064, 99101, 99136, 99170, 99202, 99233, 99263,
    99292, 99320, 99346, 99372, 99396, 99420, 99443, 99464, 99485, 99505, 99525, 99543, 99561, 99578,
    99595, 99611, 99626, 99641, 99655, 99668, 99681, 99694, 99706, 99717, 99728, 99739, 99749, 99759,
    99768, 99777, 99786, 99795, 99803, 99810, 99818, 99825, 99832, 99838, 99845, 99851, 99857, 99862,
    99868, 99873, 99878, 99883, 99887, 99892, 99896, 99900, 99904, 99908, 99911, 99915, 99918, 99921,
    99924, 99927, 99930, 99933, 99936, 99938, 99941, 99943, 99945, 99947, 99949, 99951, 99953, 99955,
    99957, 99958, 99960, 99962, 99963, 99965, 99966, 99967, 99969, 99970, 99971, 99972, 99973, 99974,
    99975, 99976, 99977, 99978, 99979, 99980, 99981, 99981, 99982, 99983, 99983, 99984, 99985, 99985,
    99986, 99986, 99987, 99987, 99988, 99988, 99989, 99989, 99990, 99990, 99991, 99991, 99991, 99992,
    99992, 99992, 99993, 99993, 99993, 99993, 99994, 99994, 99994, 99994, 99995, 99995, 99995, 99995,
    99995, 99996, 99996, 99996, 99996, 99996, 99996, 99997, 99997, 99997, 99997, 99997, 99997, 99997,
    99997, 99997, 99998, 99998, 99998, 99998, 99998, 99998, 99998, 99998, 99998, 99998, 99998, 99998,
    99998, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999,
    99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999, 99999,
    100000, 100000, 100000>>
\* x in 1/1000; straight between the entries
Tanh(x) == IF x >= 6500 THEN 100000
           ELSE LET i == x \div 20 IN Table[i + 1] + ((Table[i + 2] - Table[i + 1]) * (x % 20)) \div 20
\* The depth as the waves see it, 4 pi^2 h / (g T^2) in 1/1000: T in 1/10 s, h in m
Sight(tt, h) == (402430 * h) \div (tt * tt)
\* x tanh x, in 1/1000
Rise(x) == (x * (Tanh(x) \div 10)) \div 10000
\* What deep water waves are long, over T squared, in 1/10000 m/s2
Deep == 15613
\* tanh of x in 1/10000, in 1/100000
Finer(x) == IF x >= 65000 THEN 100000
            ELSE LET i == x \div 200 IN Table[i + 1] + ((Table[i + 2] - Table[i + 1]) * (x % 200)) \div 200
\* In parts of that (1/100000): at the depth of hl wavelengths (1/100000)
Finest(x) == LET i == x \div 2000 IN Table[i + 1] + ((Table[i + 2] - Table[i + 1]) * (x % 2000)) \div 2000
AtDepth(hl) == IF hl >= 100000 THEN 100000 ELSE IF hl >= 30000 THEN Finer((hl * 6283) \div 10000) ELSE Finest((hl * 6283) \div 1000)
\* Speed of the group in parts of that of the wave, (1 + 2 x / sinh 2 x) / 2, in 1/10000: sinh 2 x = 2 t / (1 - t^2)
Group(x) == IF x >= 6500 THEN 5000 ELSE IF x < 20 THEN 10000
            ELSE LET t == Tanh(x) \div 10 IN 5000 + (((x * (10000 - (t * t) \div 10000)) \div 100) * 500) \div t
=============================================================================
