// Engine self-test: library features a refactoring might start to use.  Engine and native runs must agree on every observation.
#include "sx.h"
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstring>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
static void obs(const char *t, const std::string &s) { uint64_t h = 1469598103934665603ull; for (char c : s) { h ^= (unsigned char)sx_concretize((unsigned char)c); h *= 1099511628211ull; } sx_observe(t, h); sx_observe("len", s.size()); }
struct B { virtual ~B() {} virtual int f() { return 1; } }; struct D : B { int f() override { return 2; } };
extern "C" void sx_main() {
  int part = (int)sx_param("MODE", 0); long x = sx_range("x", -3, 3), y = sx_range("y", 0, 5);
  if (part == 0) {
    std::unordered_map<long, int> um; um[x] = 1; um[y] += 2; for (long i = 0; i < 40; ++i) um[i * 7] = (int)i; sx_observe("um", um.size()); sx_observe("umf", um.count(x)); um.erase(y); sx_observe("um2", um.size());
    std::unordered_set<std::string> us{"a", "bb", "ccc"}; us.insert(std::string((size_t)y, 'b')); sx_observe("us", us.size()); std::unordered_map<std::string, std::vector<int>> um3; um3["k"].push_back(3); um3.reserve(50); sx_observe("um3", um3.at("k")[0]);
    std::set<long> s{x, y, 3}; sx_observe("set", s.size()); std::multiset<long> ms{x, y, 3, 3}; sx_observe("ms", ms.count(3)); std::map<std::pair<long, long>, int> m; m[{x, y}]++; m[{y, x}]++; sx_observe("map", m.size()); m.erase(m.begin()); m.emplace(std::make_pair(1L, 2L), 5); m.insert_or_assign({1L, 2L}, 6); m.try_emplace({1L, 3L}, 6); sx_observe("map2", m.size());
    std::deque<long> dq; for (int i = 0; i < 100; ++i) { if (i % 3) dq.push_back(i); else dq.push_front(i); } dq.pop_front(); sx_observe("dq", dq[10]); std::list<long> l{3, 1, 2}; l.sort(); l.reverse(); l.remove(2); sx_observe("l", l.front() * 10 + l.size()); std::forward_list<int> fl{1, 2}; fl.push_front(5); sx_observe("fl", fl.front());
    std::priority_queue<long> pq; pq.push(x); pq.push(y); pq.push(1); sx_observe("pq", pq.top()); std::stack<int> st; st.push(4); sx_observe("st", st.top()); std::queue<int> q; q.push(7); q.push(8); q.pop(); sx_observe("q", q.front());
    std::vector<bool> vb(10); vb[(size_t)y] = true; vb.flip(); sx_observe("vb", std::count(vb.begin(), vb.end(), true)); std::bitset<8> bs; bs.set((size_t)y); sx_observe("bs", bs.to_ulong()); std::array<long, 3> ar{x, y, x + y}; sx_observe("ar", *std::max_element(ar.begin(), ar.end()));
    std::multimap<int, int> mm; mm.insert({1, 2}); mm.insert({1, 3}); auto r = mm.equal_range(1); sx_observe("mm", std::distance(r.first, r.second)); auto node = m.extract(m.begin()); m.insert(std::move(node)); sx_observe("node", m.size());
  } else if (part == 1) {
    std::vector<long> v; for (long i = 0; i < 40; ++i) v.push_back((i * 37) % 41); v[3] = x; std::sort(v.begin(), v.end()); sx_observe("s0", v[0]); sx_observe("s39", v[39]); std::vector<std::pair<long, long>> p; for (long i = 0; i < 20; ++i) p.push_back({i % 3, i}); std::stable_sort(p.begin(), p.end(), [](auto &a, auto &b) { return a.first < b.first; }); sx_observe("ss", p[7].second); std::nth_element(v.begin(), v.begin() + 5, v.end(), std::greater<long>()); sx_observe("nth", v[5]); std::partial_sort(v.begin(), v.begin() + 3, v.end()); sx_observe("ps", v[2]);
    v.erase(std::unique(v.begin(), v.end()), v.end()); v.erase(std::remove_if(v.begin(), v.end(), [](long a) { return a > 20; }), v.end()); sx_observe("rm", v.size()); std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + 2, v.end()); sx_observe("rot", v[0]); sx_observe("acc", std::accumulate(v.begin(), v.end(), 0L)); sx_observe("inner", std::inner_product(v.begin(), v.end(), v.begin(), 0L)); std::vector<long> w(v.size()); std::partial_sum(v.begin(), v.end(), w.begin()); sx_observe("psum", w.back()); std::adjacent_difference(v.begin(), v.end(), w.begin()); std::iota(w.begin(), w.end(), x); sx_observe("iota", w.back()); sx_observe("any", std::any_of(w.begin(), w.end(), [&](long a) { return a == y; })); std::vector<long> u; std::copy_if(w.begin(), w.end(), std::back_inserter(u), [](long a) { return a & 1; }); sx_observe("ci", u.size()); std::sort(u.begin(), u.end()); sx_observe("lb", std::lower_bound(u.begin(), u.end(), y) - u.begin()); std::next_permutation(u.begin(), u.end()); sx_observe("np", u.empty() ? 0 : u[0]); sx_observe("isp", std::is_permutation(u.begin(), u.end(), u.rbegin())); std::vector<long> un; std::set_union(u.begin(), u.end(), w.begin(), w.end(), std::back_inserter(un)); std::swap_ranges(u.begin(), u.end(), w.begin()); std::fill_n(u.begin(), u.size(), 3); std::generate(u.begin(), u.end(), [n = 0]() mutable { return n++; }); sx_observe("gen", u.size() ? u.back() : 0); sx_observe("mm", std::minmax(x, y).first); sx_observe("cl", std::clamp(x, 0L, 2L)); std::inplace_merge(v.begin(), v.begin() + 2, v.end()); std::make_heap(v.begin(), v.end()); std::sort_heap(v.begin(), v.end()); sx_observe("heap", v.back()); sx_observe("lex", std::lexicographical_compare(u.begin(), u.end(), v.begin(), v.end())); std::vector<std::vector<long>> vv(3, std::vector<long>(2, x)); vv[1][1] = y; sx_observe("vv", vv < std::vector<std::vector<long>>{}); auto mi = std::mismatch(u.begin(), u.end(), u.begin()); sx_observe("mi", mi.first == u.end()); std::transform(u.begin(), u.end(), u.begin(), u.begin(), std::plus<long>()); v.insert(v.begin() + 1, u.begin(), u.end()); v.shrink_to_fit(); v.resize(50, 7); v.assign(3, x); v.emplace(v.begin(), y); sx_observe("v", v.front() * 100 + v.back()); std::for_each(v.begin(), v.end(), [](long &a) { a *= 2; }); sx_observe("fe", v[0]); std::shuffle(v.begin(), v.end(), std::mt19937(5)); sx_observe("shuf", v[0]);
  } else if (part == 2) {
    auto sp = std::make_shared<D>(); std::shared_ptr<B> sb = sp; std::weak_ptr<B> wp = sb; sx_observe("uc", sb.use_count()); sx_observe("vf", sb->f()); sp.reset(); sb.reset(); sx_observe("wp", wp.expired()); std::unique_ptr<B> up(new D); sx_observe("dc", dynamic_cast<D *>(up.get()) != nullptr); auto ua = std::make_unique<long[]>(5); ua[2] = x; sx_observe("ua", ua[2]);
    std::function<long(long)> f = [&](long a) { return a + x; }; sx_observe("fn", f(y)); auto g = std::bind(std::plus<long>(), std::placeholders::_1, 3); sx_observe("bind", g(x)); auto h = std::mem_fn(&B::f); sx_observe("memfn", h(*up)); std::optional<long> o; if (x > 0) o = y; sx_observe("opt", o.value_or(-1)); std::variant<long, std::string> v = x; if (y == 2) v = std::string("abc"); sx_observe("var", std::visit([](auto &&a) -> long { if constexpr (std::is_same_v<std::decay_t<decltype(a)>, long>) return a; else return (long)a.size(); }, v)); std::any an = x; sx_observe("any", std::any_cast<long>(an)); auto t = std::make_tuple(x, y, 'c'); auto [a, b, c] = t; sx_observe("tup", a * 10 + b + c); sx_observe("tie", std::tie(x, y) < std::tie(y, x)); static std::mutex mu; { std::lock_guard<std::mutex> lk(mu); sx_observe("lock", 1); } static std::once_flag of; std::atomic<long> at{x}; at += 2; at.fetch_add(1); long ex = 0; at.compare_exchange_strong(ex, 5); sx_observe("at", at.load()); static long st = x * 2; sx_observe("static", st);
    try { std::vector<int>(2).at((size_t)y); sx_observe("noexc", 1); } catch (const std::out_of_range &e) { sx_observe("exc", 2); } catch (const std::exception &) { sx_observe("exc", 3); }
    try { if (x == 1) throw std::runtime_error("r" + std::to_string(y)); if (x == 2) throw (int)y; if (x == 3) throw std::string("s"); } catch (const std::exception &e) { obs("what", e.what()); } catch (int i) { sx_observe("int", i); } catch (...) { sx_observe("other", 1); }
    std::complex<double> z(1.5, 2), z2 = z * std::conj(z); sx_observe("cplx", (uint64_t)(z2.real() * 4)); sx_observe("abs", (uint64_t)(std::abs(std::complex<double>(3, 4)))); sx_observe("sqrt", (uint64_t)std::sqrt(2.25 * 4)); sx_observe("floor", (uint64_t)std::floor(2.5)); sx_observe("round", (uint64_t)std::llround(2.5)); sx_observe("pow", (uint64_t)std::pow(2.0, 5)); sx_observe("nan", std::isnan(0.0)); sx_observe("max", (uint64_t)std::fmax(2.0, 3.0));
    std::string_view sv("hello"); sx_observe("sv", sv.substr(1, 3) == "ell"); sx_observe("hash", std::hash<long>()(5)); std::unique_ptr<long, std::function<void(long *)>> cd(new long(3), [](long *p) { delete p; });
  } else if (part == 4) {
    namespace fs = std::filesystem; fs::path d = "dir"; if (x > 0) sx_observe("mk", fs::create_directory(d)); sx_observe("ex", fs::exists(d)); sx_observe("isd", fs::is_directory("dir/")); sx_observe("mk2", fs::create_directories(d / "a" / "b")); sx_observe("mk3", fs::create_directories(d / "a" / "b"));
    std::string f = (d / ("f" + std::to_string(y) + ".txt")).string(); obs("path", f); { std::ofstream o(f); o << "hello " << y; } sx_observe("size", fs::file_size(f)); sx_observe("copy", fs::copy_file(f, d / "a" / "g")); try { fs::copy_file(f, d / "a" / "g"); sx_observe("no", 1); } catch (const fs::filesystem_error& e) { sx_observe("err", 1); }
    size_t n = 0; for (const auto& e : fs::directory_iterator(d)) { n += e.is_regular_file(); n += 10 * e.path().filename().string().size(); } sx_observe("n", n); obs("ext", fs::path(f).extension().string() + fs::path(f).stem().string() + fs::path(f).parent_path().string()); std::error_code ec; sx_observe("rmd", fs::remove(d, ec)); sx_observe("ec", bool(ec)); fs::rename(f, "moved"); sx_observe("mv", fs::exists("moved") && !fs::exists(f)); fs::copy("dir", "dir2", fs::copy_options::recursive); sx_observe("deep", fs::is_regular_file("dir2/a/g")); sx_observe("all", fs::remove_all("dir")); sx_observe("gone", fs::exists("dir/a/g")); sx_observe("rm", fs::remove("nothing")); fs::remove("moved"); fs::remove_all("dir2");
  } else {
    std::string s = "abc" + std::to_string(x) + std::to_string(2.5) + std::to_string(y); s += std::string(40, 'z'); s.insert(3, "--"); s.replace(0, 1, "QQ"); s.erase(5, 2); obs("s", s); sx_observe("find", s.find("zz")); sx_observe("rfind", s.rfind('z')); sx_observe("fno", s.find_first_not_of("Qabc")); sx_observe("cmp", s.compare("abc") > 0); sx_observe("stoi", std::stoi(std::to_string(y * 10 + 1))); sx_observe("stol", std::stol("-12")); sx_observe("stod", (uint64_t)(std::stod("2.5") * 2)); obs("sub", s.substr(2, 5));
    std::ostringstream o; o << x << ' ' << y << " " << 2.5 << " " << std::setw(5) << std::setfill('0') << y << std::hex << 255 << std::dec << std::boolalpha << true << std::left << std::setw(4) << 'x' << std::fixed << std::setprecision(2) << 3.14159 << std::scientific << 12345.678 << '\n' << (void *)nullptr; obs("o", o.str()); std::istringstream is("12 abc 3.5\nline two\n\nx"); int i; std::string w; double d; is >> i >> w >> d; sx_observe("i", i); obs("w", w); sx_observe("d", (uint64_t)(d * 2)); std::string ln; std::getline(is, ln); std::getline(is, ln); obs("ln", ln); sx_observe("eof", (bool)std::getline(is, ln) && ln.empty()); std::stringstream ss; ss << "a,b,c"; std::vector<std::string> parts; while (std::getline(ss, ln, ',')) parts.push_back(ln); sx_observe("parts", parts.size());
    std::ostringstream o2; std::copy(parts.begin(), parts.end(), std::ostream_iterator<std::string>(o2, ";")); obs("o2", o2.str()); std::vector<int> rd; std::istringstream is2("1 2 3"); std::copy(std::istream_iterator<int>(is2), std::istream_iterator<int>(), std::back_inserter(rd)); sx_observe("rd", rd.size()); { std::ofstream f("t.bin", std::ios::binary); f.write((const char *)&x, 8); f << "tail"; sx_observe("good", f.good()); } { std::ifstream f("t.bin", std::ios::binary | std::ios::ate); sx_observe("tell", (uint64_t)f.tellg()); f.seekg(0); long z; f.read((char *)&z, 8); sx_observe("z", z); std::string c((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); obs("c", c); sx_observe("gcount", f.eof()); } std::ifstream nf("nope"); sx_observe("nf", nf.is_open()); sx_observe("nf2", !nf); char buf[32]; snprintf(buf, sizeof buf, "%d-%s-%05.2f-%lu", (int)y, "q", 1.5, (unsigned long)7); obs("snp", buf); std::string up = "aBc"; std::transform(up.begin(), up.end(), up.begin(), [](unsigned char ch) { return std::toupper(ch); }); obs("up", up); std::cerr << "x" << std::endl; printf("%d\n", 3); puts("x"); fprintf(stderr, "y"); sx_observe("strtol", strtol("77x", nullptr, 10)); auto t0 = std::chrono::steady_clock::now(); auto dt = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); sx_observe("dt", dt >= 0); std::ostringstream m; m << std::quoted("a\"b"); obs("quoted", m.str());
  }
  sx_reach("done");
}
