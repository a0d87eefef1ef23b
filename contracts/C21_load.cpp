#include "gio.h"
#include "vc.h"
using namespace emp;
typedef uint64_t u64;
//@ all sym=0
VC_HARNESS(load) {
	u64 n = vc_size("n", 0, 40, "0,1,5,16,17"), m = vc_choice("m", 0, 2) * 4, r = vc_choice("r", 0, 2); gio::parts = 2; vc_fill_bytes(gio::disk, n + 2, "disk"); uint8_t want[64]; memcpy(want, gio::disk, n); gio::disk_n = n + 2; MemIO io(vc_choice("cap", 1, 2) * 3); uint8_t d[8]; vc_fill_bytes(d, 8, "d"); io.send_data(d, m); if (r <= m) { uint8_t t[2]; io.recv_data(t, r); }
	FileIO f("ch", true); io.load_from_file(&f, n); uint8_t e[6]; vc_fill_bytes(e, 5, "e"); io.send_data(e, 5); memcpy(want + n, e, 5); uint8_t* o = new uint8_t[n + 6]; vc_fill_bytes(o, n + 6, "o"); u64 g = o[n + 5], h = n / 2; io.recv_data(o, h); io.recv_data(o + h, n + 5 - h);
	for (u64 i = 0; i < n + 5; ++i) vc_assert(o[i] == want[i], "after a load the channel delivers the file's bytes and then what is sent"); vc_assert(o[n + 5] == g, "receiving after a load stays inside the buffer"); e[0] = o[0]; io.recv_data(o, 1); vc_assert(o[0] == e[0], "nothing is left after everything was received"); vc_assert(((gio::File*)f.stream)->pos == n, "a load consumes exactly the requested bytes of the file");
}
