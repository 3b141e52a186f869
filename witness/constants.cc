// Relations the physical constants of GyotoDefs.h must satisfy: each W line is a
// compile-time assertion (never executed).
#include "GyotoDefs.h"
constexpr double ab(double x) { return x < 0 ? -x : x; }
constexpr bool eq(double a, double b, double tol) { return ab(a - b) <= tol * (ab(a) + ab(b)); }
#define W(name, a, b, tol) static_assert(eq((a), (b), tol), #name);
W(speed_of_light, GYOTO_C, 299792458., 1e-15)
W(c_cgs, GYOTO_C_CGS, GYOTO_C * 100., 1e-12)
W(c2_cgs, GYOTO_C2_CGS, GYOTO_C_CGS * GYOTO_C_CGS, 1e-9)
W(c2_cgs_m1, GYOTO_C2_CGS_M1 * GYOTO_C2_CGS, 1., 1e-9)
W(gravitation, GYOTO_G, 6.6743e-11, 1e-4)
W(g_cgs, GYOTO_G_CGS, GYOTO_G * 1e3, 1e-9)
W(g_over_c2, GYOTO_G_OVER_C_SQUARE, GYOTO_G / (GYOTO_C * GYOTO_C), 1e-6)
W(g_over_c2_cgs, GYOTO_G_OVER_C_SQUARE_CGS, GYOTO_G_CGS / GYOTO_C2_CGS, 1e-6)
W(planck, GYOTO_PLANCK, 6.62607015e-34, 1e-6)
W(planck_cgs, GYOTO_PLANCK_CGS, GYOTO_PLANCK * 1e7, 1e-9)
W(planck_over_c2, GYOTO_PLANCK_OVER_C_SQUARE, GYOTO_PLANCK / (GYOTO_C * GYOTO_C), 1e-6)
W(boltzmann, GYOTO_BOLTZMANN, 1.380649e-23, 1e-5)
W(boltzmann_cgs, GYOTO_BOLTZMANN_CGS, GYOTO_BOLTZMANN * 1e7, 1e-9)
W(planck_over_boltzmann, GYOTO_PLANCK_OVER_BOLTZMANN, GYOTO_PLANCK / GYOTO_BOLTZMANN, 1e-6)
W(stefan_boltzmann_cgs, GYOTO_STEFANBOLTZMANN_CGS, 5.670374e-5, 1e-5)
W(gas_constant, GYOTO_GAS_CST, GYOTO_AVOGADRO * GYOTO_BOLTZMANN, 1e-5)
W(gas_constant_cgs, GYOTO_GAS_CST_CGS, GYOTO_GAS_CST * 1e7, 1e-9)
W(thomson, GYOTO_THOMSON_CGS, 6.6524587e-25, 1e-4)
W(fine_structure, GYOTO_ALPHA_F, 1. / 137.036, 1e-3)
W(proton_mass, GYOTO_PROTON_MASS_CGS, 1.67262192e-24, 1e-5)
W(electron_mass, GYOTO_ELECTRON_MASS_CGS, 9.1093837e-28, 1e-5)
W(electron_radius, GYOTO_ELECTRON_CLASSICAL_RADIUS_CGS, GYOTO_ELEMENTARY_CHARGE_CGS * GYOTO_ELEMENTARY_CHARGE_CGS / (GYOTO_ELECTRON_MASS_CGS * GYOTO_C2_CGS), 1e-4)
W(euler_mascheroni, GYOTO_EULER_MASCHERONI, 0.5772157, 1e-5)
W(atomic_mass_unit, GYOTO_ATOMIC_MASS_UNIT_CGS, 1.66053907e-24, 1e-5)
W(inu_cgs_to_si, GYOTO_INU_CGS_TO_SI, 1e-7 * 1e4, 1e-12)
W(jnu_cgs_to_si, GYOTO_JNU_CGS_TO_SI, 1e-7 * 1e6, 1e-12)
W(anu_cgs_to_si, GYOTO_ANU_CGS_TO_SI, 1e2, 1e-12)
W(sun_mass, GYOTO_SUN_MASS, 1.98841e30, 1e-4)
W(sun_mass_cgs, GYOTO_SUN_MASS_CGS, GYOTO_SUN_MASS * 1e3, 1e-12)
W(sun_radius, GYOTO_SUN_RADIUS, 6.957e8, 1e-3)
W(kiloparsec, GYOTO_KPC, 3.0856776e19, 1e-5)
W(parsec_from_au, GYOTO_KPC, GYOTO_ASTRONOMICAL_UNIT * 1e3 / GYOTO_SECRAD, 1e-5)
W(astronomical_unit, GYOTO_ASTRONOMICAL_UNIT, 1.495978707e11, 1e-9)
W(light_year, GYOTO_LIGHT_YEAR, GYOTO_C * 365.25 * 86400., 1e-9)
W(radeg_degrad, GYOTO_RADEG * GYOTO_DEGRAD, 1., 1e-12)
W(degrad, GYOTO_DEGRAD, 3.14159265358979323846 / 180., 1e-12)
W(minrad, GYOTO_MINRAD * 60., GYOTO_DEGRAD, 1e-12)
W(secrad, GYOTO_SECRAD * 60., GYOTO_MINRAD, 1e-12)
W(masrad, GYOTO_MASRAD * 1e3, GYOTO_SECRAD, 1e-12)
W(muasrad, GYOTO_MUASRAD * 1e6, GYOTO_SECRAD, 1e-12)
W(ev_to_hz, GYOTO_eV2Hz * GYOTO_PLANCK, 1.602176634e-19, 1e-6)
