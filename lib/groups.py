"""Group structures of SCALE (eV, ascending) that the command line offers."""
G3 = [1e-05, 0.625, 5500.0, 20000000.0]
G44 = [1e-05, 0.003, 0.0075, 0.01, 0.0253, 0.03, 0.04, 0.05, 0.07, 0.1, 0.15, 0.2, 0.225, 0.25, 0.275, 0.325, 0.35, 0.375, 0.4, 0.625, 1.0, 1.77, 3.0, 4.75,
        6.0, 8.1, 10.0, 30.0, 100.0, 550.0, 3000.0, 17000.0, 25000.0, 100000.0, 400000.0, 900000.0, 1400000.0, 1850000.0, 2354000.0, 2479000.0, 3000000.0,
        4800000.0, 6434000.0, 8187300.0, 20000000.0]
G56 = [1e-05, 0.004, 0.01, 0.0253, 0.04, 0.05, 0.06, 0.08, 0.1, 0.15, 0.2, 0.25, 0.325, 0.35, 0.375, 0.45, 0.625, 1.01, 1.08, 1.13, 5.0, 6.25, 6.5, 6.875,
        7.0, 20.5, 21.2, 21.75, 36.0, 37.13, 65.0, 67.5, 101.2, 105.0, 116.0, 117.5, 187.7, 191.5, 2250.0, 3740.0, 17000.0, 20000.0, 50000.0, 200000.0,
        270000.0, 330000.0, 470000.0, 600000.0, 750000.0, 861100.0, 1200000.0, 1500000.0, 1850000.0, 3000000.0, 4304000.0, 6434000.0, 20000000.0]
G238 = [1e-05, 0.0001, 0.0005, 0.00075, 0.001, 0.0012, 0.0015, 0.002, 0.0025, 0.003, 0.004, 0.005, 0.0075, 0.01, 0.0253, 0.03, 0.04, 0.05, 0.06, 0.07, 0.08,
        0.09, 0.1, 0.125, 0.15, 0.175, 0.2, 0.225, 0.25, 0.275, 0.3, 0.325, 0.35, 0.375, 0.4, 0.45, 0.5, 0.55, 0.6, 0.625, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9,
        0.925, 0.95, 0.975, 1.0, 1.01, 1.02, 1.03, 1.04, 1.05, 1.06, 1.07, 1.08, 1.09, 1.1, 1.11, 1.12, 1.13, 1.14, 1.15, 1.175, 1.2, 1.225, 1.25, 1.3, 1.35,
        1.4, 1.45, 1.5, 1.59, 1.68, 1.77, 1.86, 1.94, 2.0, 2.12, 2.21, 2.3, 2.38, 2.47, 2.57, 2.67, 2.77, 2.87, 2.97, 3.0, 3.05, 3.15, 3.5, 3.73, 4.0, 4.75,
        5.0, 5.4, 6.0, 6.25, 6.5, 6.75, 7.0, 7.15, 8.1, 9.1, 10.0, 11.5, 11.9, 12.9, 13.75, 14.4, 15.1, 16.0, 17.0, 18.5, 19.0, 20.0, 21.0, 22.5, 25.0, 27.5,
        30.0, 31.25, 31.75, 33.25, 33.75, 34.6, 35.5, 37.0, 38.0, 39.1, 39.6, 41.0, 42.4, 44.0, 45.2, 47.0, 48.3, 49.2, 50.6, 52.0, 53.4, 59.0, 61.0, 65.0,
        67.5, 72.0, 76.0, 80.0, 82.0, 90.0, 100.0, 108.0, 115.0, 119.0, 122.0, 186.0, 192.5, 207.5, 210.0, 240.0, 285.0, 305.0, 550.0, 670.0, 683.0, 950.0,
        1150.0, 1500.0, 1550.0, 1800.0, 2200.0, 2290.0, 2580.0, 3000.0, 3740.0, 3900.0, 6000.0, 8030.0, 9500.0, 13000.0, 17000.0, 25000.0, 30000.0, 45000.0,
        50000.0, 52000.0, 60000.0, 73000.0, 75000.0, 82000.0, 85000.0, 100000.0, 128300.0, 150000.0, 200000.0, 270000.0, 330000.0, 400000.0, 420000.0,
        440000.0, 470000.0, 499520.0, 550000.0, 573000.0, 600000.0, 670000.0, 679000.0, 750000.0, 820000.0, 861100.0, 875000.0, 900000.0, 920000.0, 1010000.0,
        1100000.0, 1200000.0, 1250000.0, 1317000.0, 1356000.0, 1400000.0, 1500000.0, 1850000.0, 2354000.0, 2479000.0, 3000000.0, 4304000.0, 4800000.0,
        6434000.0, 8187300.0, 10000000.0, 12840000.0, 13840000.0, 14550000.0, 15683000.0, 17333000.0, 20000000.0]
G252 = [1e-05, 0.0001, 0.0005, 0.00075, 0.001, 0.0012, 0.0015, 0.002, 0.0025, 0.003, 0.004, 0.005, 0.0075, 0.01, 0.0253, 0.03, 0.04, 0.05, 0.06, 0.07, 0.08,
        0.09, 0.1, 0.125, 0.15, 0.175, 0.2, 0.225, 0.25, 0.275, 0.3, 0.325, 0.35, 0.375, 0.4, 0.45, 0.5, 0.55, 0.6, 0.625, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9,
        0.925, 0.95, 0.975, 1.0, 1.01, 1.02, 1.03, 1.04, 1.05, 1.06, 1.07, 1.08, 1.09, 1.1, 1.11, 1.12, 1.13, 1.14, 1.15, 1.175, 1.2, 1.225, 1.25, 1.3, 1.35,
        1.4, 1.45, 1.5, 1.59, 1.68, 1.77, 1.86, 1.94, 2.0, 2.12, 2.21, 2.3, 2.38, 2.47, 2.57, 2.67, 2.77, 2.87, 2.97, 3.0, 3.1, 3.2, 3.5, 3.73, 4.1, 4.7, 5.0,
        5.4, 6.0, 6.25, 6.5, 6.75, 6.875, 7.0, 7.15, 8.1, 9.1, 10.0, 11.5, 11.9, 12.9, 14.4, 16.0, 17.0, 18.5, 19.4, 20.0, 20.5, 21.2, 21.75, 22.5, 25.0,
        27.5, 30.0, 31.25, 31.75, 33.25, 33.75, 35.0, 35.5, 36.0, 37.0, 37.13, 37.27, 37.63, 38.0, 39.1, 39.6, 41.0, 42.4, 44.0, 45.2, 48.3, 50.6, 53.4, 58.0,
        61.0, 63.0, 65.0, 67.5, 72.0, 76.0, 80.0, 81.7, 90.0, 97.0, 101.2, 105.0, 108.0, 113.0, 116.0, 117.5, 119.0, 122.0, 143.0, 170.0, 180.0, 187.7, 188.5,
        191.5, 193.0, 202.0, 207.4, 209.5, 220.0, 240.0, 285.0, 305.0, 550.0, 670.0, 683.0, 950.0, 1150.0, 1500.0, 1550.0, 1800.0, 2200.0, 2250.0, 2500.0,
        3000.0, 3740.0, 3900.0, 5700.0, 8030.0, 9500.0, 13000.0, 17000.0, 20000.0, 30000.0, 45000.0, 50000.0, 52000.0, 60000.0, 73000.0, 75000.0, 82000.0,
        85000.0, 100000.0, 128300.0, 149000.0, 200000.0, 270000.0, 330000.0, 400000.0, 420000.0, 440000.0, 470000.0, 492000.0, 550000.0, 573000.0, 600000.0,
        670000.0, 679000.0, 750000.0, 820000.0, 861100.0, 875000.0, 900000.0, 920000.0, 1010000.0, 1100000.0, 1200000.0, 1250000.0, 1317000.0, 1356000.0,
        1400000.0, 1500000.0, 1850000.0, 2354000.0, 2479000.0, 3000000.0, 4304000.0, 4800000.0, 6434000.0, 8187000.0, 10000000.0, 12840000.0, 13840000.0,
        14550000.0, 15680000.0, 17330000.0, 20000000.0]
BOUNDS = {3: G3, 44: G44, 56: G56, 238: G238, 252: G252}
