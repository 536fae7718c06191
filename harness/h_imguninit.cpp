// C32, run under valgrind: no decision on bytes that are not in the file, no undefined pixel.
#include "img.hpp"
static void attempt(vp::Ctx& c, const std::string& path) {
    c.step(); dw::Tensor t; float sum = 0;
    try { dw::io::ReadImage(path, t); } catch (const std::exception&) { return; }
    for (size_t i = 0; i < t.total(); ++i) if (t.data()[i] > 3) sum += t.data()[i]; // a branch on every pixel
    c.check(sum >= 0, "negative pixels");
}
SCENARIO(png_uninit, 1) { static const std::vector<img::Png> S = {{3, 2, 2, 8, false, 1, 0}, {2, 3, 3, 4, false, 5, 0}, {3, 2, 0, 16, true, 2, 0}}; int i = c.choose(3); Bytes b = img::png(S[i]); int at = c.choose((int)b.size() + 1); c.tell(S[i].str(), " cut to ", at, " of ", b.size(), " bytes"); c.state(vp::mix(i, at)); attempt(c, img::put("d.png", b.substr(0, at))); attempt(c, img::put("e.jpg", b.substr(0, at))); }
SCENARIO(jpeg_uninit, 1) { Bytes b = img::jpg({9, 5, 3, false, 2, 2, 80, 0}); int at = c.choose((int)b.size() + 1); c.tell("JPEG cut to ", at, " of ", b.size(), " bytes"); c.state(vp::mix(9, at)); attempt(c, img::put("d.jpg", b.substr(0, at))); attempt(c, img::put("e.png", b.substr(0, at))); }
