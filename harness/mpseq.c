#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/mp_seq.h"
/* P38: motion plan sequences */
static struct aa_rx_sg *mk(size_t n) { static const char *N[] = {"a", "b", "c"}; double q[4] = {0, 0, 0, 1}, v[3] = {0}, ax[3] = {0, 0, 1}; struct aa_rx_sg *sg = aa_rx_sg_create(); for (size_t i = 0; i < n; i++) aa_rx_sg_add_frame_revolute(sg, i ? N[i-1] : "", N[i], q, v, N[i], ax, 0); aa_rx_sg_init(sg); return sg; }
// vf: h_seq max_paths=2000 budget=200
void h_seq(void) {
    size_t live = vf_live(); struct aa_rx_sg *sg[2] = {mk(1 + vf_pick("joints", 3)), mk(2)}; struct aa_rx_mp_seq *s = aa_rx_mp_seq_create(); vf_true("empty", aa_rx_mp_seq_count(s) == 0 && aa_rx_mp_seq_point_count(s) == 0);
    size_t n = vf_pick("elements", 4), np[3], w[3], tot = 0; double q[3][6]; size_t g[3];
    for (size_t i = 0; i < n; i++) {
        g[i] = (i + n) % 2; np[i] = i == 2 ? 1 : vf_pick("points", 3); w[i] = np[i] * aa_rx_sg_config_count(sg[g[i]]); double x[6]; vf_reals("q", 6, x); cpy(6, x, q[i]); aa_rx_mp_seq_append_all(s, sg[g[i]], np[i], x); for (int k = 0; k < 6; k++) x[k] = 77; tot += np[i];
        vf_true("one more element", aa_rx_mp_seq_count(s) == i + 1); vf_true("points", aa_rx_mp_seq_point_count(s) == tot);
    }
    const struct aa_rx_sg *r; size_t m; const double *p;
    for (size_t i = 0; i < n; i++) { r = 0; p = 0; m = 99; aa_rx_mp_seq_elt(s, i, &r, &m, &p); vf_true("scene graph of the element", r == sg[g[i]]); vf_true("points of the element", m == np[i]); (vf_eqn)("its own copy of the path", w[i], p, q[i]); }
    aa_rx_mp_seq_elt(s, n, &r, &m, &p); vf_true("nothing past the end", r == 0 && m == 0 && p == 0);
    aa_rx_mp_seq_destroy(s); for (int i = 0; i < 2; i++) aa_rx_sg_destroy(sg[i]); aa_mem_region_local_destroy(); vf_true("everything is released", vf_live() == live);
}
