#include "ref.h"
#include <string.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
/* P41: error codes are named completely and exactly */
static const char *const NM[6] = {"no_solution", "no_inverse_kinematics", "no_motion_plan", "invalid_frame", "invalid_parameter", "invalid_state"};
// vf: h_errstr max_paths=500
void h_errstr(void) {
    size_t live = vf_live(); struct aa_mem_region *reg = aa_mem_region_create(64 << 3*vf_pick("room", 2)); int e = (int)vf_int("code", 0, 63); char *s = aa_rx_errstr(reg, e); char *other = aa_rx_errstr(reg, 1); vf_true("another string", 0 == strcmp(other, NM[0]) && (other >= s + strlen(s) + 1 || s > other)); vf_true("ends", strlen(s) < 256);
    const char *p = s; int seen = 0; if (e == 0) vf_true("no error", 0 == strcmp(s, "OK"));
    else for (;;) { size_t n = 0; while (p[n] && p[n] != ':') n++; int k = -1; for (int i = 0; i < 6; i++) if (strlen(NM[i]) == n && 0 == memcmp(NM[i], p, n)) k = i; vf_true("a name", k >= 0); if (k < 0) break; vf_true("of an error present, once", (e >> k & 1) && !(seen >> k & 1)); seen |= 1 << k; if (!p[n]) break; p += n + 1; }
    if (e) vf_true("all errors are named", seen == e); aa_mem_region_destroy(reg); vf_true("released", vf_live() == live);
}
void h_codes(void) { const int c[7] = {aa_rx_ok, aa_rx_no_solution, aa_rx_no_ik, aa_rx_no_mp, aa_rx_invalid_frame, aa_rx_invalid_parameter, aa_rx_invalid_state}, m[7] = {AA_RX_OK, AA_RX_NO_SOLUTION, AA_RX_NO_IK, AA_RX_NO_MP, AA_RX_INVALID_FRAME, AA_RX_INVALID_PARAMETER, AA_RX_INVALID_STATE}; int all = 0; for (int i = 0; i < 7; i++) { vf_true("constant and macro agree", c[i] == m[i]); vf_true("codes combine", (all & m[i]) == 0 && (i == 0 || m[i])); all |= m[i]; } }
