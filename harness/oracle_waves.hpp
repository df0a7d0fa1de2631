// Specification data: the table of constituents documented in wave.hpp
// (Schureman 1958, tables 2 and 2a), transcribed once and reviewed by hand
// against the documentation of each constituent; not derived at check time.
#pragma once
enum OracleF { F_1, F_141, F_79, F_j1, F_k1, F_k2, F_l2, F_m1, F_m2, F_m22, F_m22_k1, F_m22_k2, F_m23, F_m24, F_m2_k1, F_m2_k2, F_m2_o1, F_m3, F_mf, F_mm, F_o1, F_oo1 };
struct OracleWave {
  const char* name;
  bool long_period;
  bool admittance;
  // T, s, h, p, N, p1, 90 degree shift, xi, nu, nu', nu''
  signed char arg[11];
  OracleF f;
};
static const OracleWave kOracle[75] = {
    {"Mm", true, false, {0, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0}, F_mm},
    {"Mf", true, false, {0, 2, 0, 0, 0, 0, 0, -2, 0, 0, 0}, F_mf},
    {"Mtm", true, false, {0, 3, 0, -1, 0, 0, 0, -2, 0, 0, 0}, F_mf},
    {"Msqm", true, false, {0, 4, -2, 0, 0, 0, 0, -2, 0, 0, 0}, F_mf},
    {"2Q1", false, true, {1, -4, 1, 2, 0, 0, 1, 2, -1, 0, 0}, F_o1},
    {"Sigma1", false, true, {1, -4, 3, 0, 0, 0, 1, 2, -1, 0, 0}, F_o1},
    {"Q1", false, false, {1, -3, 1, 1, 0, 0, 1, 2, -1, 0, 0}, F_o1},
    {"Rho1", false, true, {1, -3, 3, -1, 0, 0, 1, 2, -1, 0, 0}, F_o1},
    {"O1", false, false, {1, -2, 1, 0, 0, 0, 1, 2, -1, 0, 0}, F_o1},
    {"MP1", false, false, {1, -2, 3, 0, 0, 0, -1, 0, -1, 0, 0}, F_j1},
    {"M11", false, true, {1, -1, 1, 1, 0, 0, -1, 0, -1, 0, 0}, F_j1},
    {"M12", false, true, {1, -1, 1, -1, 0, 0, -1, 2, -1, 0, 0}, F_o1},
    {"M13", false, false, {1, -1, 1, 1, 0, 0, -1, 0, -1, 0, 0}, F_m1},
    {"Chi1", false, true, {1, -1, 3, -1, 0, 0, -1, 0, -1, 0, 0}, F_j1},
    {"Pi1", false, true, {1, 0, -2, 0, 0, 1, 1, 0, 0, 0, 0}, F_1},
    {"P1", false, false, {1, 0, -1, 0, 0, 0, 1, 0, 0, 0, 0}, F_1},
    {"S1", false, false, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
    {"K1", false, false, {1, 0, 1, 0, 0, 0, -1, 0, 0, -1, 0}, F_k1},
    {"Psi1", false, false, {1, 0, 2, 0, 0, -1, -1, 0, 0, 0, 0}, F_1},
    {"Phi1", false, true, {1, 0, 3, 0, 0, 0, -1, 0, 0, 0, 0}, F_1},
    {"Theta1", false, true, {1, 1, -1, 1, 0, 0, -1, 0, -1, 0, 0}, F_j1},
    {"J1", false, true, {1, 1, 1, -1, 0, 0, -1, 0, -1, 0, 0}, F_j1},
    {"OO1", false, true, {1, 2, 1, 0, 0, 0, -1, -2, -1, 0, 0}, F_oo1},
    {"MNS2", false, false, {2, -5, 4, 1, 0, 0, 0, 4, -4, 0, 0}, F_m22},
    {"Eps2", false, true, {2, -5, 4, 1, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"2N2", false, true, {2, -4, 2, 2, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"Mu2", false, true, {2, -4, 4, 0, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"2MS2", false, false, {2, -4, 4, 0, 0, 0, 0, 4, -4, 0, 0}, F_m22},
    {"N2", false, false, {2, -3, 2, 1, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"Nu2", false, true, {2, -3, 4, -1, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"M2", false, false, {2, -2, 2, 0, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"MKS2", false, false, {2, -2, 4, 0, 0, 0, 0, 2, -2, 0, -2}, F_m2_k2},
    {"Lambda2", false, true, {2, -1, 0, 1, 0, 0, 2, 2, -2, 0, 0}, F_m2},
    {"L2", false, true, {2, -1, 2, -1, 0, 0, 2, 2, -2, 0, 0}, F_l2},
    {"2MN2", false, false, {2, -1, 2, -1, 0, 0, 2, 2, -2, 0, 0}, F_m23},
    {"T2", false, true, {2, 0, -1, 0, 0, 1, 0, 0, 0, 0, 0}, F_1},
    {"S2", false, false, {2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
    {"R2", false, false, {2, 0, 1, 0, 0, -1, 2, 0, 0, 0, 0}, F_1},
    {"K2", false, false, {2, 0, 2, 0, 0, 0, 0, 0, 0, 0, -2}, F_k2},
    {"MSN2", false, false, {2, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0}, F_m22},
    {"Eta2", false, true, {2, 1, 2, -1, 0, 0, 0, 0, -2, 0, 0}, F_79},
    {"2SM2", false, false, {2, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0}, F_m2},
    {"MO3", false, false, {3, -4, 3, 0, 0, 0, 1, 4, -3, 0, 0}, F_m2_o1},
    {"2MK3", false, false, {3, -4, 3, 0, 0, 0, 1, 4, -4, 1, 0}, F_m22_k1},
    {"M3", false, false, {3, -3, 3, 0, 0, 0, 0, 3, -3, 0, 0}, F_m3},
    {"MK3", false, false, {3, -2, 3, 0, 0, 0, -1, 2, -2, -1, 0}, F_m2_k1},
    {"N4", false, false, {4, -6, 4, 2, 0, 0, 0, 4, -4, 0, 0}, F_m22},
    {"MN4", false, false, {4, -5, 4, 1, 0, 0, 0, 4, -4, 0, 0}, F_m22},
    {"M4", false, false, {4, -4, 4, 0, 0, 0, 0, 4, -4, 0, 0}, F_m22},
    {"SN4", false, false, {4, -3, 2, 1, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"MS4", false, false, {4, -2, 2, 0, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"MK4", false, false, {4, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0}, F_m2_k2},
    {"S4", false, false, {4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
    {"SK4", false, false, {4, 0, 2, 0, 0, 0, 0, 0, 0, 0, -2}, F_k2},
    {"R4", false, false, {4, 0, 2, 0, 0, -2, 0, 0, 0, 0, 0}, F_1},
    {"2MN6", false, false, {6, -7, 6, 1, 0, 0, 0, 6, -6, 0, 0}, F_m23},
    {"M6", false, false, {6, -6, 6, 0, 0, 0, 0, 6, -6, 0, 0}, F_m23},
    {"MSN6", false, false, {6, -5, 4, 1, 0, 0, 0, 4, -4, 0, 0}, F_m22},
    {"2MS6", false, false, {6, -4, 4, 0, 0, 0, 0, 4, -4, 0, 0}, F_m22},
    {"2MK6", false, false, {6, -4, 6, 0, 0, 0, 0, 4, -4, 0, -2}, F_m22_k2},
    {"2SM6", false, false, {6, -2, 2, 0, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"MSK6", false, false, {6, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0}, F_m2_k2},
    {"S6", false, false, {6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
    {"M8", false, false, {8, -8, 8, 0, 0, 0, 0, 8, -8, 0, 0}, F_m24},
    {"MSf", true, false, {0, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0}, F_m2},
    {"Ssa", true, false, {0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
    {"Sa", true, false, {0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}, F_1},
    {"Sa1", true, false, {0, 0, 1, 0, 0, -1, 0, 0, 0, 0, 0}, F_1},
    {"Sta", true, false, {0, 0, 3, 0, 0, -1, 0, 0, 0, 0, 0}, F_1},
    {"Mm1", true, false, {0, 1, 0, 1, 0, 0, 2, -2, 0, 0, 0}, F_mf},
    {"Mf1", true, false, {0, 2, 0, -2, 0, 0, 0, 0, 0, 0, 0}, F_mm},
    {"A5", true, false, {0, 2, -2, 0, 0, 0, 0, 0, 0, 0, 0}, F_mm},
    {"M0", true, false, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F_mm},
    {"Mm2", true, false, {0, 1, 0, 0, 0, 0, -1, -1, 0, 0, 0}, F_141},
    {"Mf2", true, false, {0, 2, 0, -1, 0, 0, -1, -1, 0, 0, 0}, F_141},
};
