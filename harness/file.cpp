// C33: reading and writing binary files with il::File.
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>

#include <il/File.h>

#include "pbt.h"
#include "refusal.h"

namespace pbt {
const char* rule =
    "histories of up to 20 operations on 2 files opened at the same time, each for reading or for writing, with any "
    "size of buffer: reads (typed and untyped) of 0 byte to more than what is left, skips, writes, closings, "
    "openings of missing files and of existing ones. Non-trivial: at least one byte read or written and 3 operations";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 250000;
    pbt::thorough_cases = 5000000;
  }
} init;

using Bytes = std::vector<unsigned char>;

int nbOpenFiles() {
  int n = 0;
  for (int f = 3; f < 40; ++f) {
    if (lseek(f, 0, SEEK_CUR) >= 0) ++n;
  }
  return n;
}

void put(const std::string& path, const Bytes& b) {
  unlink(path.c_str());
  std::FILE* f = std::fopen(path.c_str(), "wb");
  if (!f || std::fwrite(b.data(), 1, b.size(), f) != b.size() || std::fclose(f) != 0) throw pbt::Discard{};
}

bool get(const std::string& path, Bytes& b) {
  b.clear();
  std::FILE* f = std::fopen(path.c_str(), "rb");
  if (!f) return false;
  unsigned char t[4096];
  std::size_t n;
  while ((n = std::fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n);
  std::fclose(f);
  return true;
}

Bytes drawBytes(pbt::Src& s, std::size_t n) {
  Bytes b(n);
  std::uint64_t x = s.bits64() | 1;
  for (std::size_t i = 0; i < n; ++i) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    b[i] = static_cast<unsigned char>(x >> 56);
  }
  return b;
}

std::size_t drawLength(pbt::Src& s) {
  switch (s.weighted({6, 3, 1, 1})) {
    case 0: return static_cast<std::size_t>(s.range(0, 40));
    case 1: return static_cast<std::size_t>(s.range(0, 300));
    case 2: return static_cast<std::size_t>(s.range(4000, 4200));
    default: return static_cast<std::size_t>(s.range(8000, 20000));
  }
}

il::String name(const std::string& t) { return il::String{il::StringType::Utf8, t.data(), static_cast<il::int_t>(t.size())}; }

// The name of a file, short or long, now and then with bytes above 127
std::string drawPath(pbt::Src& s, const std::string& dir, int slot) {
  std::string t = dir + "/" + (slot ? "b" : "a");
  if (s.chance(1, 6)) t += "\xc3\xa9 \xe2\x82\xac";
  if (s.chance(1, 6)) t += std::string(static_cast<std::size_t>(s.range(1, 150)), 'x');
  return t;
}

struct Slot {
  il::File* file = nullptr;
  bool reading = false;
  bool spoilt = false;    // an operation failed: it can only be closed
  std::string path;
  Bytes bytes;            // in the file
  std::size_t pos = 0;
  bool maybe_longer = false;  // a skip after the last write
};

// An object whose file is opened is never destroyed here: it would be a misuse
struct World {
  Slot slot[2];
  int files;
  std::vector<std::string> paths;
  ~World() {
    for (Slot& x : slot) {
      if (x.file) {
        try {
          il::Status status{};
          x.file->Close(il::io, status);
          status.AbortOnError();
        } catch (...) {
          // the failure which is reported comes from elsewhere
          x.file = nullptr;
        }
        delete x.file;
      }
    }
    for (const std::string& p : paths) unlink(p.c_str());
  }
};

il::File* construct(pbt::Src& s, const std::string& path, il::FileMode mode, bool& ok, il::Error* error, std::string* how) {
  il::Status status{};
  il::File* f;
  if (s.chance(1, 3)) {
    f = new il::File(name(path), mode, il::io, status);
    *how = "no buffer";
  } else {
    const il::int_t n = s.weighted({3, 2, 1}) == 0 ? s.range(0, 64) : (s.coin() ? s.range(0, 300) : s.oneOf<il::int_t>({1024, 4095, 4096, 4097, 10000}));
    f = new il::File(name(path), mode, n, il::io, status);
    *how = "buffer of " + pbt::str(n);
  }
  ok = status.Ok();
  if (!ok && error) *error = status.error();
  return f;
}

// A destination of exactly n bytes (ASan sees the bytes around)
struct Destination {
  unsigned char* p;
  std::size_t n;
  explicit Destination(std::size_t m) : p{static_cast<unsigned char*>(std::malloc(m ? m : 1))}, n{m} { std::memset(p, 0xA5, m ? m : 1); }
  ~Destination() { std::free(p); }
  Destination(const Destination&) = delete;
};

template <typename T, il::int_t n>
void typed(il::File& f, unsigned char* p, il::Status& status) {
  f.Read<n, T>(il::io, reinterpret_cast<T*>(p), status);
}
#pragma pack(push, 1)
struct Odd {
  unsigned char t[13];
};
struct Wide {
  double x;
  int y;
  unsigned char z[29];
};
#pragma pack(pop)
using Typed = void (*)(il::File&, unsigned char*, il::Status&);
struct TypedRead {
  const char* name;
  std::size_t bytes;
  Typed f;
};
const TypedRead typed_reads[] = {
    {"1 char", 1, typed<char, 1>},        {"3 char", 3, typed<char, 3>},     {"17 char", 17, typed<char, 17>},
    {"1 short", 2, typed<short, 1>},      {"2 short", 4, typed<short, 2>},   {"1 int", 4, typed<int, 1>},
    {"2 int", 8, typed<int, 2>},          {"5 int", 20, typed<int, 5>},      {"1 double", 8, typed<double, 1>},
    {"3 double", 24, typed<double, 3>},   {"8 double", 64, typed<double, 8>}, {"100 double", 800, typed<double, 100>},
    {"1 struct of 13 bytes", 13, typed<Odd, 1>}, {"3 structs of 13 bytes", 39, typed<Odd, 3>},
    {"1 struct of 41 bytes", 41, typed<Wide, 1>}, {"2 structs of 41 bytes", 82, typed<Wide, 2>},
};

void closeSlot(pbt::Ctx& c, Slot& x, bool must_be_ok) {
  il::Status status{};
  x.file->Close(il::io, status);
  const bool ok = status.Ok();
  LOG("close " << x.path << (ok ? "" : ": error"));
  delete x.file;
  x.file = nullptr;
  if (must_be_ok) REQUIRE(ok, "closing the file failed");
  Bytes now;
  REQUIRE(get(x.path, now), "the file " << x.path << " is not there anymore");
  if (x.reading) {
    REQUIRE(now == x.bytes, "a file has been changed by reading it");
  } else if (!x.spoilt) {
    REQUIRE(now.size() >= x.bytes.size(), now.size() << " bytes in the file for " << x.bytes.size() << " written");
    for (std::size_t i = 0; i < x.bytes.size(); ++i)
      REQUIRE(now[i] == x.bytes[i], "the byte " << i << " of the file is " << int(now[i]) << " and not " << int(x.bytes[i]));
    if (!x.maybe_longer) REQUIRE(now.size() == x.bytes.size(), now.size() << " bytes in the file for " << x.bytes.size() << " written");
    if (now.size() > x.bytes.size()) {
      REQUIRE(now.size() <= x.pos, "the file goes beyond the position");
      for (std::size_t i = x.bytes.size(); i < now.size(); ++i) REQUIRE(now[i] == 0, "the byte " << i << " has never been written");
    }
  }
}

void openSlot(pbt::Src& s, pbt::Ctx& c, World& w, int k) {
  Slot& x = w.slot[k];
  x = Slot{};
  x.path = drawPath(s, c.scratch, k);
  w.paths.push_back(x.path);
  x.reading = s.weighted({3, 2}) == 0;
  bool exists = true;
  if (x.reading) {
    x.bytes = drawBytes(s, drawLength(s));
    put(x.path, x.bytes);
  } else if (s.coin()) {
    put(x.path, drawBytes(s, drawLength(s)));
  } else {
    unlink(x.path.c_str());
    exists = false;
  }
  bool ok;
  std::string how;
  x.file = construct(s, x.path, x.reading ? il::FileMode::Read : il::FileMode::Write, ok, nullptr, &how);
  LOG("open " << x.path << (x.reading ? " for reading, " : " for writing, ") << how << ", "
              << (x.reading ? pbt::str(x.bytes.size()) + " bytes" : exists ? "which exists" : "which does not exist"));
  if (!ok) {
    delete x.file;
    x.file = nullptr;
  }
  REQUIRE(ok, "the file cannot be opened");
}

void openMissing(pbt::Src& s, pbt::Ctx& c) {
  const int files = nbOpenFiles();
  std::string path = c.scratch + "/missing";
  unlink(path.c_str());
  const bool reading = s.coin();
  // A file cannot be made in a directory which does not exist
  if (!reading || s.chance(1, 3)) path += "/a";
  bool ok;
  il::Error error = il::Error::Undefined;
  std::string how;
  il::File* f = construct(s, path, reading ? il::FileMode::Read : il::FileMode::Write, ok, &error, &how);
  LOG("open the missing file " << path << (reading ? " for reading, " : " for writing, ") << how);
  REQUIRE(!ok, "a file which does not exist has been opened");
  if (reading) REQUIRE(error == il::Error::FilesystemFileNotFound, "error " << static_cast<int>(error));
  delete f;
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
}

#ifndef NDEBUG
// Calls which are out of the contract. They change nothing.
void misuse(pbt::Src& s, pbt::Ctx& c, Slot& x) {
  unsigned char t[16] = {};
  const int k = static_cast<int>(s.range(0, 5));
  il::File& f = *x.file;
  Count n;
  switch (k) {
    case 0:
      if (x.reading)
        expect(c, n, false, "Write to a file opened for reading", [&] { il::Status st{}; f.Write(t, 1, 1, il::io, st); st.IgnoreError(); });
      else
        expect(c, n, false, "Read of a file opened for writing", [&] { il::Status st{}; f.Read(1, 1, il::io, t, st); st.IgnoreError(); });
      break;
    case 1:
      if (!x.reading)
        expect(c, n, false, "typed Read of a file opened for writing", [&] { il::Status st{}; f.Read<1, int>(il::io, reinterpret_cast<int*>(t), st); st.IgnoreError(); });
      else
        expect(c, n, false, "Read of a negative number of objects", [&] { il::Status st{}; f.Read(-s.range(1, 100), 1, il::io, t, st); st.IgnoreError(); });
      break;
    case 2:
      if (!x.reading)
        expect(c, n, false, "Write of a negative number of objects", [&] { il::Status st{}; f.Write(t, -s.range(1, 100), 1, il::io, st); st.IgnoreError(); });
      else
        expect(c, n, false, "Read of objects of 0 byte", [&] { il::Status st{}; f.Read(s.range(0, 3), 0, il::io, t, st); st.IgnoreError(); });
      break;
    default: {
      // after a closing
      il::Status status{};
      f.Close(il::io, status);
      const bool ok = status.Ok();
      il::File* g = x.file;
      x.file = nullptr;
      REQUIRE(ok, "closing the file failed");
      switch (k) {
        case 3:
          expect(c, n, false, "Close of a closed file", [&] { il::Status st{}; g->Close(il::io, st); st.IgnoreError(); });
          break;
        case 4:
          expect(c, n, false, "Skip in a closed file", [&] { il::Status st{}; g->Skip(1, il::io, st); st.IgnoreError(); });
          break;
        default:
          if (x.reading)
            expect(c, n, false, "Read of a closed file", [&] { il::Status st{}; g->Read(1, 1, il::io, t, st); st.IgnoreError(); });
          else
            expect(c, n, false, "Write to a closed file", [&] { il::Status st{}; g->Write(t, 1, 1, il::io, st); st.IgnoreError(); });
      }
      delete g;
    }
  }
}
#endif

std::size_t drawCount(pbt::Src& s, std::size_t left) {
  switch (s.weighted({6, 3, 2, 2, 1})) {
    case 0: return static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(std::min<std::size_t>(left, 40))));
    case 1: return static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(left)));
    case 2: return left;
    case 3: return left / 2;
    default: return left + static_cast<std::size_t>(s.coin() ? s.range(1, 20) : s.range(1, 10000));
  }
}
}  // namespace

PROPERTY(history, 10) {
  World w;
  w.files = nbOpenFiles();
  const int nb = static_cast<int>(s.range(1, 20));
  long moved = 0;
  int ops = 0;
  bool failed = false;
  for (int k = 0; k < nb; ++k) {
    const int slot = static_cast<int>(s.weighted({3, 1}));
    Slot& x = w.slot[slot];
    if (!x.file) {
      if (s.chance(1, 12)) {
        openMissing(s, c);
        c.tag("missing file");
      } else {
        openSlot(s, c, w, slot);
      }
      continue;
    }
    ++ops;
    if (x.spoilt || s.chance(1, 12)) {
#ifndef NDEBUG
      if (!x.spoilt && s.chance(1, 3)) {
        misuse(s, c, x);
        c.tag("misuse");
        continue;
      }
#endif
      closeSlot(c, x, true);
      continue;
    }
    if (s.chance(1, 6)) {
      std::size_t n = x.reading ? drawCount(s, x.bytes.size() > x.pos ? x.bytes.size() - x.pos : 0)
                                : static_cast<std::size_t>(s.range(0, s.coin() ? 20 : 5000));
      il::Status status{};
      x.file->Skip(n, il::io, status);
      const bool ok = status.Ok();
      LOG("skip " << n << " in " << x.path << (ok ? "" : ": error"));
      if (x.reading && x.pos + n > x.bytes.size()) {
        // The end may be seen now or by the next read
        if (!ok) x.spoilt = true;
        c.tag("skip beyond the end");
      } else {
        REQUIRE(ok, "the skip failed");
      }
      x.pos += n;
      if (!x.reading && x.pos > x.bytes.size()) x.maybe_longer = true;
      continue;
    }
    if (x.reading) {
      const std::size_t left = x.bytes.size() > x.pos ? x.bytes.size() - x.pos : 0;
      std::size_t n;
      il::Status status{};
      bool ok;
      Destination* d = nullptr;
      struct Free {
        Destination*& d;
        ~Free() { delete d; }
      } guard{d};
      if (s.chance(1, 3)) {
        const TypedRead& t = typed_reads[s.draw(sizeof typed_reads / sizeof typed_reads[0])];
        n = t.bytes;
        d = new Destination(n);
        t.f(*x.file, d->p, status);
        ok = status.Ok();
        LOG("read " << t.name << " in " << x.path << (ok ? "" : ": error"));
      } else {
        n = drawCount(s, left);
        std::size_t size = s.oneOf<std::size_t>({1, 2, 3, 4, 8, 16, 100});
        if (s.chance(1, 6)) size = std::max<std::size_t>(1, n);
        const il::int_t objects = static_cast<il::int_t>((n + (s.coin() ? size - 1 : 0)) / size);
        n = static_cast<std::size_t>(objects) * size;
        d = new Destination(n);
        x.file->Read(objects, size, il::io, d->p, status);
        ok = status.Ok();
        LOG("read " << objects << " x " << size << " in " << x.path << (ok ? "" : ": error"));
      }
      if (n > left) {
        // a read of nothing after the end is not judged
        if (n > 0) REQUIRE(!ok, n << " bytes have been read out of the " << left << " which are left");
        if (!ok) REQUIRE(status.error() == il::Error::FilesystemFileNotLongEnough, "error " << static_cast<int>(status.error()));
        x.spoilt = true;
        failed = true;
        c.tag("read beyond the end");
      } else {
        REQUIRE(ok, "the " << n << " bytes at " << x.pos << " of a file of " << x.bytes.size() << " have not been read");
        for (std::size_t i = 0; i < n; ++i)
          REQUIRE(d->p[i] == x.bytes[x.pos + i], "the byte " << x.pos + i << " of the file has been read as " << int(d->p[i]) << " and not "
                                                             << int(x.bytes[x.pos + i]));
        x.pos += n;
        moved += static_cast<long>(n);
      }
    } else {
      const std::size_t size = s.oneOf<std::size_t>({1, 2, 4, 8, 3, 100});
      const il::int_t objects = s.range(0, s.weighted({5, 1}) == 0 ? 12 : 3000);
      const std::size_t n = static_cast<std::size_t>(objects) * size;
      // exactly n bytes: ASan sees a read beyond
      const Bytes b = drawBytes(s, n);
      unsigned char* p = static_cast<unsigned char*>(std::malloc(n ? n : 1));
      if (n) std::memcpy(p, b.data(), n);
      il::Status status{};
      x.file->Write(p, objects, size, il::io, status);
      const bool ok = status.Ok();
      std::free(p);
      LOG("write " << objects << " x " << size << " in " << x.path << (ok ? "" : ": error"));
      REQUIRE(ok, "the write failed");
      if (n > 0) {
        if (x.bytes.size() < x.pos + n) x.bytes.resize(x.pos + n, 0);
        std::copy(b.begin(), b.end(), x.bytes.begin() + static_cast<std::ptrdiff_t>(x.pos));
        x.pos += n;
        x.maybe_longer = false;
        moved += static_cast<long>(n);
      }
    }
  }
  for (Slot& x : w.slot) {
    if (x.file) closeSlot(c, x, true);
  }
  REQUIRE(nbOpenFiles() == w.files, "a file has been left open");
  c.nontrivial = moved > 0 && ops >= 3;
  if (failed) c.tag("failed read");
}

// What is written with one object is read with another one
PROPERTY(round_trip, 4) {
  const std::string path = drawPath(s, c.scratch, 0);
  const int files = nbOpenFiles();
  World w;
  w.paths.push_back(path);
  Slot& x = w.slot[0];
  std::string how;
  bool ok;
  x.file = construct(s, path, il::FileMode::Write, ok, nullptr, &how);
  if (!ok) {
    delete x.file;
    x.file = nullptr;
  }
  REQUIRE(ok, "the file cannot be opened");
  const int nb = static_cast<int>(s.range(1, 12));
  std::vector<Bytes> chunks;
  std::size_t total = 0;
  for (int k = 0; k < nb; ++k) {
    const Bytes b = drawBytes(s, s.chance(1, 8) ? drawLength(s) : static_cast<std::size_t>(s.range(0, 24)));
    il::Status status{};
    x.file->Write(b.data(), static_cast<il::int_t>(b.size()), 1, il::io, status);
    ok = status.Ok();
    REQUIRE(ok, "the write of " << b.size() << " bytes failed");
    chunks.push_back(b);
    total += b.size();
  }
  {
    il::Status status{};
    x.file->Close(il::io, status);
    ok = status.Ok();
    delete x.file;
    x.file = nullptr;
    REQUIRE(ok, "the closing failed");
  }
  x.file = construct(s, path, il::FileMode::Read, ok, nullptr, &how);
  LOG(nb << " chunks, " << total << " bytes, read with " << how);
  if (!ok) {
    delete x.file;
    x.file = nullptr;
  }
  REQUIRE(ok, "the file which has just been written cannot be opened");
  for (int k = 0; k < nb; ++k) {
    const Bytes& b = chunks[static_cast<std::size_t>(k)];
    if (b.empty()) continue;
    Destination d(b.size());
    il::Status status{};
    const std::size_t size = s.coin() ? b.size() : 1;
    const bool skip = s.chance(1, 5);
    if (skip)
      x.file->Skip(b.size(), il::io, status);
    else
      x.file->Read(static_cast<il::int_t>(b.size() / size), size, il::io, d.p, status);
    ok = status.Ok();
    LOG((skip ? "skip " : "read ") << b.size());
    REQUIRE(ok, "the chunk " << k << " of " << b.size() << " bytes cannot be read");
    if (!skip) REQUIRE(std::memcmp(d.p, b.data(), b.size()) == 0, "the chunk " << k << " of " << b.size() << " bytes is not the one written");
  }
  {
    unsigned char t;
    il::Status status{};
    x.file->Read(1, 1, il::io, &t, status);
    ok = status.Ok();
    REQUIRE(!ok, "a byte has been read after the end");
  }
  {
    il::Status status{};
    x.file->Close(il::io, status);
    ok = status.Ok();
    delete x.file;
    x.file = nullptr;
    REQUIRE(ok, "the closing failed");
  }
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  c.nontrivial = total > 0;
}

// A device which is full: what cannot be stored is not said to be
PROPERTY(full_device, 1) {
  const int files = nbOpenFiles();
  World w;
  Slot& x = w.slot[0];
  std::string how;
  bool ok;
  const int probe = open("/dev/full", O_WRONLY);
  if (probe < 0) throw pbt::Discard{};
  close(probe);
  const bool full = s.weighted({3, 1}) == 0;
  x.file = construct(s, full ? "/dev/full" : "/dev/null", il::FileMode::Write, ok, nullptr, &how);
  if (!ok) {
    delete x.file;
    x.file = nullptr;
    throw pbt::Discard{};
  }
  const int nb = static_cast<int>(s.range(1, 6));
  std::size_t total = 0;
  bool error = false;
  for (int k = 0; k < nb && !error; ++k) {
    const Bytes b = drawBytes(s, s.chance(1, 3) ? drawLength(s) : static_cast<std::size_t>(s.range(0, 24)));
    il::Status status{};
    x.file->Write(b.data(), static_cast<il::int_t>(b.size()), 1, il::io, status);
    if (!status.Ok()) error = true;
    LOG("write " << b.size() << (error ? ": error" : ""));
    total += b.size();
  }
  il::Status status{};
  x.file->Close(il::io, status);
  if (!status.Ok()) error = true;
  LOG("close" << (error ? ": error" : ""));
  // whatever the result, the file is not opened anymore
  delete x.file;
  x.file = nullptr;
  if (full && total > 0) REQUIRE(error, total << " bytes written to a full device, and no error");
  if (!full) REQUIRE(!error, "an error on a device which takes everything");
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  c.nontrivial = full && total > 0;
}

// A file of more than 2 GB, made of holes and of a few bytes here and there
PROPERTY(large_file, 1) {
  const int files = nbOpenFiles();
  World w;
  Slot& x = w.slot[0];
  x.path = c.scratch + "/large";
  x.reading = true;
  w.paths.push_back(x.path);
  const std::int64_t marks[] = {0, std::int64_t{1} << 31, std::int64_t{3} << 30, std::int64_t{1} << 32, std::int64_t{5} << 30};
  std::int64_t end = s.oneOf<std::int64_t>({marks[1], marks[2], marks[3], marks[4]}) + s.range(-200, 5000);
  unlink(x.path.c_str());
  const int f = open(x.path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (f < 0) throw pbt::Discard{};
  bool made = ftruncate(f, end) == 0;
  const Bytes noise = drawBytes(s, 600);
  for (std::int64_t m : marks) {
    for (std::int64_t at : {m, end}) {
      const std::int64_t b = std::max<std::int64_t>(0, at - 300), e = std::min(end, at + 300);
      if (b >= e) continue;
      Bytes part(noise.begin(), noise.begin() + (e - b));
      for (unsigned char& q : part) q = static_cast<unsigned char>(q + at / 7919);
      made = made && pwrite(f, part.data(), part.size(), b) == e - b;
    }
  }
  // what is there, as the marks might overlap
  const auto expected = [&](std::int64_t at, std::size_t n) {
    Bytes b(n);
    if (pread(f, b.data(), n, at) != static_cast<ssize_t>(n)) throw pbt::Discard{};
    return b;
  };
  struct Closer {
    int f;
    ~Closer() { close(f); }
  } closer{f};
  if (!made) throw pbt::Discard{};
  std::string how;
  bool ok;
  x.file = construct(s, x.path, il::FileMode::Read, ok, nullptr, &how);
  LOG("a file of " << end << " bytes, " << how);
  if (!ok) {
    delete x.file;
    x.file = nullptr;
  }
  REQUIRE(ok, "the file cannot be opened");
  std::int64_t at = 0;
  const int nb = static_cast<int>(s.range(1, 10));
  bool over = false;
  for (int k = 0; k < nb && !over; ++k) {
    if (s.coin()) {
      const std::int64_t to = s.chance(1, 3) ? at + s.range(0, 5000)
                                             : std::max(at, s.oneOf<std::int64_t>({marks[1], marks[2], marks[3], marks[4], end}) + s.range(-300, 300));
      il::Status status{};
      x.file->Skip(static_cast<std::size_t>(to - at), il::io, status);
      const bool skipped = status.Ok();
      LOG("skip " << to - at << (skipped ? "" : ": error"));
      if (to <= end) REQUIRE(skipped, "the skip failed");
      if (!skipped) over = true;
      at = to;
    } else {
      const std::size_t n = static_cast<std::size_t>(s.chance(1, 4) ? s.range(0, 5000) : s.range(0, 300));
      Destination d{n};
      il::Status status{};
      x.file->Read(static_cast<il::int_t>(n), 1, il::io, d.p, status);
      const bool read = status.Ok();
      LOG("read " << n << " at " << at << (read ? "" : ": error"));
      if (n > 0 && at + static_cast<std::int64_t>(n) > end) {
        REQUIRE(!read, n << " bytes read at " << at << " of a file of " << end);
        over = true;
      } else if (n > 0) {
        REQUIRE(read, "reading " << n << " bytes at " << at << " of a file of " << end << " failed");
        const Bytes b = expected(at, n);
        for (std::size_t i = 0; i < n; ++i)
          REQUIRE(d.p[i] == b[i], "the byte " << at + static_cast<std::int64_t>(i) << " is read as " << int(d.p[i]) << " and not " << int(b[i]));
        if (at > marks[1] - 300) c.nontrivial = true;
      } else if (!read) {
        REQUIRE(at > end, "reading nothing failed");
        over = true;
      }
      at += static_cast<std::int64_t>(n);
    }
  }
  il::Status status{};
  x.file->Close(il::io, status);
  const bool closed = status.Ok();
  delete x.file;
  x.file = nullptr;
  REQUIRE(closed, "closing the file failed");
  REQUIRE(nbOpenFiles() == files + 1, "a file has been left open");
}
