// C02: tensor files; C32: files cut off at any byte
#include "util.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/syscall.h>
static uint32_t BITS[] = {0x3f800000, 0x80000000, 0, 0x7fc12345, 0xff800000, 0x00000001, 0x58585858, 0x5958, 0xbf000000, 0x7f7fffff, 0xffc00001};
static void special(Tensor& t, unsigned salt) { for (size_t i = 0; i < t.elements(); i++) { uint32_t b = BITS[(i * 7 + salt * 3 + i / 11) % 11]; if (i % 5 == 4) b = 0x40000000 + i * 977 + salt; memcpy(&t[i], &b, 4); } }
typedef std::vector<std::unique_ptr<Tensor>> TV;
static std::vector<Shape> SH{{1, 2, 3, 2}, {2, 1, 1, 3}, {1, 6, 2, 1}, {0, 0, 0, 0}, {1, 1, 1, 1}, {3, 17, 20, 1}};
static std::string raw(const Tensor& t) { std::string s; uint64_t d[4] = {t.samples(), t.width(), t.height(), t.maps()}; s.append((char*)d, 32); s.append((const char*)t.data_ptr_const(), t.elements() * 4); return s; }
static bool same(const Tensor& a, const Tensor& b) { return a.elements() == b.elements() && (a.elements() == 0 || (shape(a) == shape(b) && memcmp(a.data_ptr_const(), b.data_ptr_const(), 4 * a.elements()) == 0)); }
static std::string what(const Tensor& t) { return shape(t).str() + show(t); }
static void make(mc::Ctx& c, TV& ts, unsigned n, bool empties, size_t big = 1) { for (unsigned i = 0; i < n; i++) { unsigned k; do k = c.choose(SH.size() - 1 + big, "shape"); while (false); if (!empties) c.require(k != 3); ts.emplace_back(new Tensor()); Shape& q = SH[k]; if (q.n()) { ts.back()->Resize(q.s, q.w, q.h, q.m); special(*ts.back(), i + k); } } }
static int open_ro(const std::string& f) { return open(f.c_str(), O_RDONLY); }
// every sequence of tensors x every reading mode of every tensor x fresh or reused target
static void direct(mc::Ctx& c) {
  sys_init(); unsigned n = c.range(1, 3, "tensors"); TV ts; make(c, ts, n, true); unsigned prefix = c.pick(std::vector<unsigned>{0, 4060, 4096}, "junk before the first tensor"); c.shard();
  std::string file = "t.bin", bytes(prefix, 'j'); { std::ofstream f(file, std::ios::binary); f << bytes; for (auto& t : ts) { c.site("Serialize"); t->Serialize(f); bytes += raw(*t); c.trans(); } } std::string ctx = "file of"; for (auto& t : ts) ctx += " " + shape(*t).str(); ctx += " after " + std::to_string(prefix) + " bytes";
  CK(slurp(file) == bytes, "serial:layout", ctx + ": file bytes differ from header + data of each tensor");
  // modes: 0 copy, 1 mmap, 2 head only, 3 head only with mmap, 4 head then seek back and copy, 5 stringstream copy ; target: 0 fresh, 1 reused
  unsigned modes = 5, combos = 1; for (unsigned i = 0; i < n; i++) combos *= modes * 2;
  for (unsigned k = 0; k < combos; k++) { std::ifstream in(file, std::ios::binary); in.seekg(prefix); int fd = open_ro(file); std::unique_ptr<Tensor> reused(new Tensor()); unsigned r = k; size_t pos = prefix; std::string how;
    for (unsigned i = 0; i < n; i++) { unsigned mode = r % modes; r /= modes; bool re = r % 2; r /= 2; std::unique_ptr<Tensor> fresh(new Tensor()); Tensor& t = re ? *reused : *fresh; how += " " + std::to_string(mode) + (re ? "r" : "f"); c.site("Deserialize " + how); c.trans();
      if (mode == 4) { t.Deserialize(in, true); CK(shape(t) == shape(*ts[i]) || (t.elements() == 0 && ts[i]->elements() == 0), "serial:head", ctx + how + ": header gives " + shape(t).str()); in.seekg(pos); t.Deserialize(in); } else t.Deserialize(in, mode == 2 || mode == 3, mode == 1 || mode == 3, mode == 1 || mode == 3 ? fd : 0);
      pos += 32 + ts[i]->elements() * 4; CK(t.elements() == ts[i]->elements() && (t.elements() == 0 || shape(t) == shape(*ts[i])), "serial:shape", ctx + how + ": tensor " + std::to_string(i) + " read as " + shape(t).str());
      if (mode != 2 && mode != 3) CK(same(t, *ts[i]), "serial:content", ctx + how + ": tensor " + std::to_string(i) + " read " + what(t) + " expected " + what(*ts[i]));
      CK((size_t)in.tellg() == pos, "serial:position", ctx + how + ": stream at " + std::to_string((long)in.tellg()) + " expected " + std::to_string(pos)); }
    close(fd); c.validated(); }
  { std::istringstream in(bytes); in.seekg(prefix); Tensor t; for (unsigned i = 0; i < n; i++) { c.site("Deserialize stringstream"); t.Deserialize(in); CK(same(t, *ts[i]), "serial:content", ctx + " from memory: tensor " + std::to_string(i) + " read " + what(t)); } }
  CK(slurp(file) == bytes, "serial:modified", ctx + ": reading changed the file"); c.state(mc::hash_bytes(bytes.data(), bytes.size())); if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample(ctx + " read in " + std::to_string(combos) + " mode combinations"); }
// whole files through the stream reader, and moved / copied / written again
static void stream(mc::Ctx& c) {
  sys_init(); unsigned n = c.range(0, c.thorough() ? 5 : 4, "tensors"); TV ts; make(c, ts, n, false); c.shard(); std::string bytes; for (auto& t : ts) bytes += raw(*t); spit("s.bin", bytes); std::string ctx = std::to_string(n) + " tensors"; for (auto& t : ts) ctx += " " + shape(*t).str();
  c.site("FromFile"); StreamPtr s(TensorStream::FromFile("s.bin")); CK(s->GetTensorCount() == n, "stream:count", ctx + ": count " + std::to_string(s->GetTensorCount()));
  for (unsigned i = 0; i < n; i++) { Shape q = shape(*ts[i]); CK(s->GetSamples(i) == q.s && s->GetWidth(i) == q.w && s->GetHeight(i) == q.h && s->GetMaps(i) == q.m, "stream:shape", ctx + " tensor " + std::to_string(i)); Tensor t(q.s, q.w, q.h, q.m); t.Clear(-9); for (size_t k = 0; k < q.s; k++) { c.site("CopySample"); CK(s->CopySample(i, k, t, k), "stream:copy", ctx + " refused"); c.trans(); } CK(same(t, *ts[i]), "stream:content", ctx + " tensor " + std::to_string(i) + " read " + what(t) + " expected " + what(*ts[i])); }
  s.reset(); // a memory-mapped tensor is copied, moved and written again
  int fd = open_ro("s.bin"); { std::ifstream in("s.bin", std::ios::binary); std::ofstream out("s2.bin", std::ios::binary); for (unsigned i = 0; i < n; i++) { Tensor t; t.Deserialize(in, false, true, fd); Tensor cp(t, true); Tensor mv(std::move(t)); Tensor sh; sh.Shadow(mv); c.site("mmapped copy"); CK(same(cp, *ts[i]) && same(mv, *ts[i]) && same(sh, *ts[i]), "stream:copies", ctx); mv.Serialize(out); t.Resize(1, 2, 1, 1); t.Clear(4); c.trans(4); } } close(fd);
  CK(slurp("s2.bin") == bytes, "stream:rewrite", ctx + ": writing a memory-mapped tensor again changed bytes"); CK(slurp("s.bin") == bytes, "stream:modified", ctx); c.state(mc::hash_bytes(bytes.data(), bytes.size())); c.validated(); if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample(ctx); }
// the command line tool that truncates a stream to its first tensors
static void tool(mc::Ctx& c) {
  const char* exe = getenv("TENSORSTREAMTOOL"); if (!exe) return; unsigned n = c.range(1, 3, "tensors"); TV ts; make(c, ts, n, false, 0); unsigned keep = c.range(0, 4, "keep"); c.shard(); std::string bytes, want; for (unsigned i = 0; i < n; i++) { bytes += raw(*ts[i]); if (keep >= n || i < keep) want += raw(*ts[i]); } spit("k.bin", bytes);
  c.site("tensorStreamTool"); int r = system((std::string(exe) + " k.bin " + std::to_string(keep) + " >tool.log 2>&1").c_str()); c.trans(); CK(r != -1 && WIFEXITED(r) && WEXITSTATUS(r) == 0, "tool:exit", "tool ended with status " + std::to_string(r) + " " + slurp("tool.log").substr(0, 800)); CK(slurp("k.bin") == want, "tool:content", "keeping " + std::to_string(keep) + " of " + std::to_string(n) + " tensors"); c.validated(); if (keep && keep < n) c.nontrivial(); if (c.want_sample()) c.sample("keep " + std::to_string(keep) + " of " + std::to_string(n)); }
// nothing stays mapped once the tensors are gone, wherever in a page their data begins and ends
static size_t maps_of(const char* name) { std::ifstream f("/proc/self/maps"); std::string l; size_t n = 0; while (std::getline(f, l)) n += l.find(name) != std::string::npos; return n; }
static void mapped(mc::Ctx& c) { sys_init(); bool comp = c.flip("compressed"); unsigned way = c.choose(3, "destroyed, reused, stream"); size_t base = 1024 * (1 + c.choose(2, "pages")); c.shard(); size_t lo = base - 24, hi = base + 16, st = c.thorough() ? 1 : 3;
  for (size_t a = lo; a <= hi; a += st) for (size_t b = lo; b <= hi; b += st) { std::string bytes; if (comp) { uint64_t m = CN24_CTS_MAGIC; bytes.append((char*)&m, 8); } std::vector<std::vector<float>> want; for (size_t n : {a, b}) { Tensor t(1, n); for (size_t i = 0; i < n; i++) t[i] = (float)smallint(i, n, 50) + (i % 2) * 0.25f; want.push_back(std::vector<float>(t.data_ptr_const(), t.data_ptr_const() + n)); std::ostringstream o; if (comp) { CompressedTensor k; k.Compress(t); k.Serialize(o); } else t.Serialize(o); bytes += o.str(); } spit("mapped.bin", bytes); std::string ctx = std::string(comp ? "compressed" : "float") + " tensors of " + std::to_string(a) + " and " + std::to_string(b); c.trans();
    if (way == 2) { StreamPtr s(TensorStream::FromFile("mapped.bin")); for (unsigned i = 0; i < 2; i++) { Tensor t(1, want[i].size()); CK(s->CopySample(i, 0, t, 0) && !memcmp(t.data_ptr_const(), want[i].data(), 4 * want[i].size()), "mapped:content", ctx); } }
    else { std::ifstream in("mapped.bin", std::ios::binary); if (comp) in.seekg(8); int fd = open("mapped.bin", O_RDONLY); { Tensor t, one; CompressedTensor k, l; for (unsigned i = 0; i < 2; i++) { Tensor& u = way ? t : (i ? t : one); CompressedTensor& v = way ? k : (i ? k : l); if (comp) { v.Deserialize(in, false, true, fd); Tensor d; v.Decompress(d); CK(d.elements() == want[i].size() && !memcmp(d.data_ptr_const(), want[i].data(), 4 * want[i].size()), "mapped:content", ctx); } else { u.Deserialize(in, false, true, fd); CK(u.elements() == want[i].size() && !memcmp(u.data_ptr_const(), want[i].data(), 4 * want[i].size()), "mapped:content", ctx); } } } close(fd); }
    size_t left = maps_of("mapped.bin"); CK(left == 0, "mapped:left", ctx + ": " + std::to_string(left) + " pieces of the file stay mapped after the tensors are gone"); c.state(mc::hash_bytes(bytes.data(), bytes.size())); c.validated(); c.nontrivial(); }
  if (c.want_sample()) c.sample(std::string(comp ? "compressed" : "float") + " tensors around " + std::to_string(base) + " elements, every offset"); }
// files of many tensors, tensors that grow in one or two dimensions
static void many(mc::Ctx& c) { unsigned n = 2, w = 3, h = 2, m = 3, s = 2; grow(c, {&n, &w, &h, &m, &s}, true, {&w, &h, &m}); bool comp = c.flip("compressed"); c.shard(); sys_init(); TV ts; std::string bytes, ctx = std::to_string(n) + " tensors of about " + Shape{s, w, h, m}.str(); for (unsigned i = 0; i < n; i++) { ts.emplace_back(new Tensor(s, w, h + i % 3, m)); special(*ts.back(), i); if (n > 20 && i % 7 == 0) ts.back()->Clear(i); }
  { std::ofstream f("m.bin", std::ios::binary); if (comp) { uint64_t mg = CN24_CTS_MAGIC; f.write((char*)&mg, 8); } for (auto& t : ts) if (comp) { CompressedTensor k; k.Compress(*t); k.Serialize(f); } else t->Serialize(f); } if (!comp) { for (auto& t : ts) bytes += raw(*t); CK(slurp("m.bin") == bytes, "serial:layout", ctx); }
  c.site("FromFile " + ctx); StreamPtr st(TensorStream::FromFile("m.bin")); CK(st->GetTensorCount() == n, "stream:count", ctx + ": count " + std::to_string(st->GetTensorCount())); for (unsigned i = 0; i < n; i++) { Shape q = shape(*ts[i]); CK(st->GetSamples(i) == q.s && st->GetWidth(i) == q.w && st->GetHeight(i) == q.h && st->GetMaps(i) == q.m, "stream:shape", ctx); Tensor t(q.s, q.w, q.h, q.m); fill(t, -9.f); for (size_t k = 0; k < q.s; k++) CK(st->CopySample(i, k, t, k), "stream:copy", ctx + " refused"); CK(same(t, *ts[i]), "stream:content", ctx + " tensor " + std::to_string(i)); c.trans(); }
  if (!comp) { Tensor t(s, w, h, m); for (size_t i = 0; i < t.elements(); i++) t[i] = (float)smallint(i, 3, 126) / 127.f; std::ostringstream o; c.site("Serialize bytes " + ctx); t.Serialize(o, true); std::string got = o.str(); size_t k = 0; bool ok = got.size() == t.elements(); auto byte = [&](size_t x, size_t y, size_t mm, size_t q) { if (ok) ok = (unsigned char)got[k] == MCHAR_FROM_DATUM(*t.data_ptr_const(x, y, mm, q)); k++; }; // three maps are pixels of three bytes, others map by map
    for (size_t q = 0; q < s; q++) if (m == 3) { for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) for (size_t mm = 0; mm < 3; mm++) byte(x, y, mm, q); } else for (size_t mm = 0; mm < m; mm++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) byte(x, y, mm, q); CK(ok, "serial:bytes", ctx + ": byte " + std::to_string(k) + " or the number of bytes is wrong"); }
  if (!comp) for (int mm = 0; mm < 2; mm++) { std::ifstream in("m.bin", std::ios::binary); int fd = open_ro("m.bin"); { Tensor t; for (unsigned i = 0; i < n; i++) { c.site("Deserialize " + ctx); t.Deserialize(in, false, mm, mm ? fd : 0); CK(same(t, *ts[i]), "serial:content", ctx + " tensor " + std::to_string(i)); } } close(fd); }
  c.state(mc::mix(mc::mix(n, w * 1031 + h), m * 1031 + s)); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(ctx); }
// files that do not exist, folders, unknown extensions: never a tensor
static void missing(mc::Ctx& c) { static const char* N[] = {"no.Tensor", "no.png", "no.PNG", "no.jpg", "no.jpeg", "no.JPG", "no.JPEG", "no.xyz", "no", "Tensor", ""}; std::string n = c.pick(std::vector<std::string>(N, N + 11), "name"); unsigned how = c.choose(3, "place"); c.shard(); sys_init(); if (how == 2) n = "nofolder/" + n; std::string x = "'" + n + "'" + (how == 1 ? " of a target with data" : ""); c.site(x); bool thrown = false; Tensor t; if (how == 1) { t.Resize(1, 2, 1, 1); t.Clear(3); }
  try { t.LoadFromFile(n); } catch (std::runtime_error&) { thrown = true; } c.trans(); CK(thrown, "missing:loaded", x + " is loaded"); thrown = false; try { StreamPtr s(TensorStream::FromFile(n)); } catch (std::runtime_error&) { thrown = true; } CK(thrown, "missing:stream", x + " is opened as a stream"); c.validated(); c.nontrivial(); c.state(mc::hash_bytes(x.data(), x.size())); if (c.want_sample()) c.sample(x); }
// more tensors than a process may have maps, and files that cannot be mapped at all
static bool nomaps = false; static size_t mapcalls = 0, failat = 0, cap = 0;
extern "C" void* mmap64(void* a, size_t n, int p, int f, int fd, off64_t o) { if (fd >= 0) { mapcalls++; if (nomaps || (failat && mapcalls == failat) || (cap && maps_of("crowd.bin") >= cap)) { errno = ENOMEM; return MAP_FAILED; } } return (void*)syscall(SYS_mmap, a, n, p, f, fd, o); }
static void crowd(mc::Ctx& c) { bool comp = c.flip("compressed"); unsigned kind = c.choose(6, "maps"); c.shard(); sys_init(); size_t n = kind == 5 ? 70000 : kind ? 4 : c.thorough() ? 3000 : 500; std::string x = std::to_string(n) + (comp ? " compressed" : "") + " tensors" + (!kind ? ", half of them can be mapped" : kind == 1 ? ", none can be mapped" : kind == 5 ? ", more than a process can map" : kind ? ", map " + std::to_string(kind - 1) + " fails" : ""); TV ts; { std::ofstream f("crowd.bin", std::ios::binary); if (comp) { uint64_t m = CN24_CTS_MAGIC; f.write((char*)&m, 8); } for (size_t i = 0; i < n; i++) { Tensor t(1, 1 + i % 2, 1, 1); t.Clear((float)i); t[0] = 0.5f; if (comp) { CompressedTensor k; k.Compress(t); k.Serialize(f); } else t.Serialize(f); } }
  nomaps = kind == 1; cap = kind ? 0 : n / 2; mapcalls = 0; failat = kind > 1 && kind < 5 ? kind - 1 : 0; c.site("FromFile " + x); StreamPtr s; try { s.reset(TensorStream::FromFile("crowd.bin")); } catch (std::runtime_error&) { } size_t calls = mapcalls; nomaps = false; cap = failat = 0; if (kind && !calls) { c.validated(); return; } CK(s != nullptr, "crowd:refused", x + " cannot be read"); CK(s->GetTensorCount() == n, "stream:count", x + ": count " + std::to_string(s->GetTensorCount()));
  for (size_t i = 0; i < n; i++) { size_t w = 1 + i % 2; CK(s->GetWidth(i) == w, "stream:shape", x); Tensor t(1, w); c.trans(); CK(s->CopySample(i, 0, t, 0) && t[0] == 0.5f && (w == 1 || t[1] == (float)i), "stream:content", x + ": tensor " + std::to_string(i) + " read " + show(t)); }
  c.site("closing " + x); s.reset(); size_t left = maps_of("crowd.bin"); CK(left == 0, "mapped:left", x + ": " + std::to_string(left) + " pieces stay mapped"); unlink("crowd.bin"); c.state(mc::mix(comp, kind)); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(x); }
MC_MAIN({"crowd", crowd}, {"missing", missing}, {"many", many}, {"direct", direct}, {"stream", stream}, {"tool", tool}, {"mapped", mapped})
