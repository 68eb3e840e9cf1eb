-------------------------------- MODULE Trig --------------------------------
(* Sines of whole degrees, in 1/10000.                                        *)
EXTENDS Integers, Sequences
Quadrant == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588, 2756, 2924,
    3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150, 5299, 5446,
    5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314, 7431, 7547,
    7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660, 8746, 8829, 8910, 8988, 9063,
    9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659, 9703, 9744, 9781, 9816, 9848, 9877,
    9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>
Sin(d) == LET m == ((d % 360) + 360) % 360 IN
          CASE m <= 90 -> Quadrant[m + 1] [] m <= 180 -> Quadrant[181 - m]
            [] m <= 270 -> 0 - Quadrant[m - 179] [] OTHER -> 0 - Quadrant[361 - m]
Cos(d) == Sin(d + 90)
=============================================================================
