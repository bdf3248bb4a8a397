// C34: images read from ppm files.
#include <sys/resource.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>

#include <il/io/ppm/ppm.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "images of any size (1 to 40 pixels in each direction, now and then up to 700) with pixels of any value, white "
    "spaces and line ends included, are written with an independent writer that lays out the header in any way (lines "
    "of comments after the first line, spaces and lines between the numbers) and read; valid files are truncated at "
    "any byte, get a header with a definite error, or are mutated. Non-trivial: more than 1 pixel";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 500000;
    pbt::thorough_cases = 5000000;
  }
} init;

int nbOpenFiles() {
  int n = 0;
  for (int f = 3; f < 40; ++f) {
    if (lseek(f, 0, SEEK_CUR) >= 0) ++n;
  }
  return n;
}

void put(const std::string& path, const std::string& text) {
  unlink(path.c_str());
  std::FILE* f = std::fopen(path.c_str(), "wb");
  if (!f || std::fwrite(text.data(), 1, text.size(), f) != text.size() || std::fclose(f) != 0) throw pbt::Discard{};
}

struct Image {
  int width = 0, height = 0;
  std::string pixels;  // 3 bytes per pixel, row by row
};

Image drawImage(pbt::Src& s) {
  Image m;
  m.width = static_cast<int>(s.chance(1, 30) ? s.range(1, 700) : s.range(1, 9));
  m.height = static_cast<int>(s.chance(1, 30) ? s.range(1, 700) : s.range(1, 9));
  if (s.chance(1, 4)) m.width = static_cast<int>(s.range(1, 40));
  if (m.width > 100 && m.height > 100) m.height = 7;
  m.pixels.resize(static_cast<std::size_t>(3 * m.width * m.height));
  std::uint64_t x = s.bits64() | 1;
  // Bytes which would be of interest in a header
  const bool text = s.chance(1, 4);
  for (char& p : m.pixels) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    p = text ? " \n\t#0129P\r\0\xff"[(x >> 50) % 12] : static_cast<char>(x >> 56);
  }
  return m;
}

// White space between the numbers of the header
std::string space(pbt::Src& s) {
  std::string t;
  do t += s.oneOf<char>({' ', '\n', '\t'});
  while (s.chance(1, 5));
  return t;
}

std::string comments(pbt::Src& s) {
  std::string t;
  int n = static_cast<int>(s.chance(1, 20) ? s.range(1, 20) : s.weighted({3, 3, 1, 1}));
  for (; n > 0; --n) {
    t += '#';
    for (std::int64_t k = s.chance(1, 10) ? s.range(0, 300) : s.range(0, 20); k > 0; --k)
      t += s.oneOf<char>({' ', 'a', '#', '1', '2', 'P', '6', '\t', '\xc3', '\xff'});
    t += '\n';
  }
  return t;
}

std::string number(pbt::Src& s, long n) {
  std::string t = std::to_string(n);
  if (s.chance(1, 20)) t = std::string(static_cast<std::size_t>(s.range(1, 3)), '0') + t;
  return t;
}

std::string header(pbt::Src& s, const Image& m) {
  return "P6\n" + comments(s) + number(s, m.width) + space(s) + number(s, m.height) + space(s) + "255\n";
}

struct Result {
  bool ok;
  il::Error error = il::Error::Undefined;
  il::Array2D<il::Pixel> image;
};

Result load(pbt::Ctx& c, const std::string& path) {
  Result r;
  const int files = nbOpenFiles();
  il::Status status{};
  r.image = il::readPpm(path, il::io, status);
  r.ok = status.Ok();
  if (!r.ok) r.error = status.error();
  LOG((r.ok ? "read" : "error") << " " << r.image.size(0) << " x " << r.image.size(1));
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  return r;
}

void same(pbt::Ctx& c, const Result& r, const Image& m) {
  REQUIRE(r.ok, "a valid file is refused");
  REQUIRE(r.image.size(0) == m.width && r.image.size(1) == m.height,
          "an image of " << m.width << " columns and " << m.height << " rows has been read as " << r.image.size(0) << " x " << r.image.size(1));
  for (il::int_t j = 0; j < m.height; ++j) {
    for (il::int_t i = 0; i < m.width; ++i) {
      const unsigned char* p = reinterpret_cast<const unsigned char*>(m.pixels.data()) + 3 * (j * m.width + i);
      const il::Pixel q = r.image(i, j);
      REQUIRE(q.red == p[0] && q.green == p[1] && q.blue == p[2],
              "the pixel of column " << i << " and row " << j << " is " << int(q.red) << " " << int(q.green) << " " << int(q.blue) << " and not "
                                     << int(p[0]) << " " << int(p[1]) << " " << int(p[2]));
    }
  }
}

std::string drawPath(pbt::Src& s, const std::string& dir) {
  std::string t = dir + "/image";
  if (s.chance(1, 8)) t += std::string(static_cast<std::size_t>(s.range(1, 100)), 'x');
  return t + ".ppm";
}

struct Remove {
  std::string path;
  ~Remove() { unlink(path.c_str()); }
};
}  // namespace

PROPERTY(valid, 6) {
  const Image m = drawImage(s);
  std::string text = header(s, m);
  LOG(pbt::quote(text));
  text += m.pixels;
  // What follows the image is not a part of it
  if (s.chance(1, 6)) {
    text += std::string(static_cast<std::size_t>(s.range(1, 20)), s.oneOf<char>({'\n', 'P', '\0', '7'}));
    c.tag("bytes after the image");
  }
  const Remove r{drawPath(s, c.scratch)};
  put(r.path, text);
  same(c, load(c, r.path), m);
  // The file is the same, and so is the image
  if (s.chance(1, 8)) same(c, load(c, r.path), m);
  c.nontrivial = m.pixels.size() > 3;
  if (m.width != m.height) c.tag("rectangle");
}

// A file which ends before its last pixel is not an image
PROPERTY(truncated, 4) {
  const Image m = drawImage(s);
  const std::string h = header(s, m);
  const std::string text = h + m.pixels;
  std::size_t n;
  switch (s.weighted({3, 3, 1})) {
    case 0: n = static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(h.size()))); break;
    case 1: n = static_cast<std::size_t>(s.range(static_cast<std::int64_t>(h.size()), static_cast<std::int64_t>(text.size()) - 1)); break;
    default: n = text.size() - 1;
  }
  LOG(pbt::quote(h) << ", truncated to " << n << " bytes of " << text.size());
  const Remove r{drawPath(s, c.scratch)};
  put(r.path, text.substr(0, n));
  const Result x = load(c, r.path);
  REQUIRE(!x.ok, "the first " << n << " bytes of a file of " << text.size() << " have been read as an image");
  REQUIRE(x.error == il::Error::BinaryFileWrongFormat, "error " << static_cast<int>(x.error));
  c.nontrivial = m.pixels.size() > 3;
  c.tag(n < h.size() ? "in the header" : "in the pixels");
}

// A definite error in the header
PROPERTY(wrong, 4) {
  const Image m = drawImage(s);
  const long big = s.oneOf<long>({1l << 30, (1l << 31) - 1, 1l << 20, 100000, 65536, 1l << 24});
  std::string h;
  const int k = static_cast<int>(s.range(0, 9));
  const std::string w = std::to_string(m.width), hh = std::to_string(m.height);
  switch (k) {
    case 0:
      h = s.oneOf<const char*>({"P3", "P5", "P1", "P7", "p6", "6P", "Q6", "66", "PP", "", "BM", "\x89PNG", "P"}) + ("\n" + w + " " + hh + "\n255\n");
      break;
    case 1: h = "P6\n" + std::to_string(-s.range(0, 40)) + " " + hh + "\n255\n"; break;
    case 2: h = "P6\n" + w + " " + std::to_string(-s.range(0, 40)) + "\n255\n"; break;
    case 3: h = "P6\n" + w + " " + hh + "\n" + std::to_string(s.oneOf<long>({0, 1, 254, 256, 65535, -1, -255, 25, 2550})) + "\n"; break;
    // more pixels than the file has
    case 4: h = "P6\n" + std::to_string(big) + " " + hh + "\n255\n"; break;
    case 5: h = "P6\n" + w + " " + std::to_string(big) + "\n255\n"; break;
    case 6: h = "P6\n" + std::to_string(big) + " " + std::to_string(big) + "\n255\n"; break;
    case 7: h = "P6\n" + std::to_string(m.width + s.range(0, 1)) + " " + std::to_string(m.height + 1) + "\n255\n"; break;
    case 8: h = "P6\n" + s.oneOf<std::string>({"", "a", "-", "+", "x3", ".5"}) + " " + s.oneOf<std::string>({"b", "-", hh + "x", ".1"}) + "\n255\n"; break;
    default: h = "P6\n" + w + " " + hh + "\n" + s.oneOf<std::string>({"a", "-", "x255", "#255"}) + "\n"; break;
  }
  LOG(pbt::quote(h) << " and " << m.pixels.size() << " bytes");
  const Remove r{drawPath(s, c.scratch)};
  // digits in the pixels would be read as a number which is missing in the header
  std::string pixels = m.pixels;
  if (k >= 8) pixels.assign(pixels.size(), '\xee');
  put(r.path, h + pixels);
  const Result x = load(c, r.path);
  REQUIRE(!x.ok, "a file with a wrong header has been read as an image");
  REQUIRE(x.error == il::Error::BinaryFileWrongFormat, "error " << static_cast<int>(x.error));
  c.nontrivial = m.pixels.size() > 3;
}

// Whatever the file, the reading ends, with an error or an image which is in the file
PROPERTY(mutated, 4) {
  const Image m = drawImage(s);
  std::string h = header(s, m);
  std::string text = h + m.pixels;
  for (int k = static_cast<int>(s.range(1, 4)); k > 0 && !text.empty(); --k) {
    // mostly in the header
    const std::size_t end = s.chance(1, 8) ? text.size() : std::min(text.size(), h.size());
    if (end == 0) break;
    const std::size_t i = s.draw(end);
    switch (s.weighted({3, 2, 2, 1, 1})) {
      case 0: text[i] = s.oneOf<char>({'0', '1', '9', '-', '+', ' ', '\n', '#', '\0', '\xff', '.', 'x', '\t', '\r', 'P', '6'}); break;
      case 1: text.insert(i, 1, s.oneOf<char>({'0', '1', '9', '-', '+', ' ', '\n', '#', '\0', '\xff', '\r'})); break;
      case 2: text.erase(i, static_cast<std::size_t>(s.range(1, 3))); break;
      case 3: text.insert(i, s.oneOf<const char*>({"2147483647", "2147483648", "99999999999999999999", "-2147483648", "#\n", "\n\n", "1e3", "00", "4294967297"})); break;
      default: text[i] = static_cast<char>(text[i] ^ (1 << s.range(0, 7)));
    }
  }
  LOG(pbt::quote(text.substr(0, 80)) << ", " << text.size() << " bytes");
  const Remove r{drawPath(s, c.scratch)};
  put(r.path, text);
  const Result x = load(c, r.path);
  if (x.ok) {
    REQUIRE(x.image.size(0) > 0 && x.image.size(1) > 0, "an image of " << x.image.size(0) << " x " << x.image.size(1));
    REQUIRE(static_cast<std::size_t>(x.image.size(0)) * static_cast<std::size_t>(x.image.size(1)) <= text.size() / 3, "more pixels than the file can hold");
    // all the pixels follow each other somewhere in the file
    std::string p;
    for (il::int_t j = 0; j < x.image.size(1); ++j)
      for (il::int_t i = 0; i < x.image.size(0); ++i) {
        const il::Pixel q = x.image(i, j);
        p += static_cast<char>(q.red);
        p += static_cast<char>(q.green);
        p += static_cast<char>(q.blue);
      }
    REQUIRE(text.find(p) != std::string::npos, "the pixels are not those of the file");
    c.tag("accepted");
  } else {
    REQUIRE(x.error == il::Error::BinaryFileWrongFormat, "error " << static_cast<int>(x.error));
  }
  c.nontrivial = m.pixels.size() > 3;
}

PROPERTY(missing, 1) {
  std::string path = drawPath(s, c.scratch);
  unlink(path.c_str());
  if (s.coin()) path += "/in";
  const Result x = load(c, path);
  REQUIRE(!x.ok, "a missing file has been read");
  REQUIRE(x.error == il::Error::FilesystemFileNotFound, "error " << static_cast<int>(x.error));
  REQUIRE(access(path.c_str(), F_OK) != 0, "the missing file has been made");
  c.nontrivial = true;
}
