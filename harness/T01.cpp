// engine self test (no property): constructs that a rewrite of the library may use
#include "segy.hpp"
#include <algorithm>
#include <array>
#include <bit>
#include <bitset>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <variant>
#define EQ(a, b) sv_eq(#a, (a), (b))
#define EQD(a, b) sv_eqd(#a, (a), (b))
#define SC(n) extern "C" void sc_T01_##n()
SC(array) { std::array<char, 8> a {}; a.fill(3); a[2] = sv_u8("x"); EQ(a[2] & 255, sv_u8("x")); EQ(a.back(), 3); }
SC(copy) { char b[8]; for (int i = 0; i < 8; ++i) b[i] = sv_u8(("b" + std::to_string(i)).c_str()); std::vector<char> v; std::copy(b, b + 8, std::back_inserter(v)); std::copy_n(b, 4, v.begin() + 2); std::copy_backward(b, b + 2, v.end()); EQ(v[3], b[1]); EQ(v[7], b[1]); }
SC(reverse) { char b[4] = { 1, 2, 3, static_cast<char>(sv_u8("x")) }; std::reverse(b, b + 4); EQ(b[0], static_cast<char>(sv_u8("x"))); EQ(b[3], 1); std::rotate(b, b + 1, b + 4); EQ(b[0], 3); std::swap(b[0], b[1]); std::reverse_copy(b, b + 2, b + 2); }
SC(byteswap) { uint32_t x = sv_u32("x"); EQ(__builtin_bswap32(x), ((x >> 24) | ((x >> 8) & 0xff00) | ((x << 8) & 0xff0000) | (x << 24))); uint64_t y = sv_u64("y"); EQ(__builtin_bswap64(__builtin_bswap64(y)), y); uint16_t z = sv_u16("z"); EQ(__builtin_bswap16(z), static_cast<uint16_t>(z << 8 | z >> 8)); }
SC(bitcast) { uint32_t x = sv_u32("x"); float f = std::bit_cast<float>(x); float g; memcpy(&g, &x, 4); EQD(f, g); EQ(std::bit_cast<uint64_t>(1.5), 0x3ff8000000000000); }
SC(rot) { uint32_t x = sv_u32("x"); EQ(std::rotl(x, 8), (x << 8 | x >> 24)); EQ(std::popcount(7u), 3); EQ(std::countl_zero(1u), 31); EQ(std::bit_width(9u), 4); EQ(std::has_single_bit(8u), 1); EQ(std::countr_zero(8u), 3); }
SC(bitset) { std::bitset<24> b(0x123); EQ(b.to_ulong(), 0x123); EQ(b.count(), 4); EQ(b.test(0), 1); }
SC(math) { EQD(std::pow(2.0, -3), 0.125); EQD(std::ldexp(3.0, 4), 48); EQD(std::scalbn(3.0, 4), 48); EQD(std::exp2(3.0), 8); EQD(std::round(2.5), 3); EQD(std::lround(2.5), 3); EQD(std::llround(-2.5), -3); EQD(std::nearbyint(2.5), 2); EQD(std::rint(3.5), 4); EQD(std::trunc(-2.5), -2); EQD(std::fabs(-2.5), 2.5); EQD(std::abs(-2.5), 2.5); EQD(std::copysign(2.0, -1.0), -2); EQD(std::fmod(7.0, 4.0), 3); int e; EQD(std::frexp(8.0, &e), 0.5); double ip; EQD(std::modf(2.25, &ip), 0.25); EQD(std::fmax(1.0, 2.0), 2); EQD(std::hypot(3.0, 4.0), 5); EQ(std::isnan(1.0), 0); EQ(std::isinf(1.0), 0); EQ(std::isfinite(1.0), 1); EQ(std::signbit(-1.0), 1); EQD(std::log2(8.0), 3); EQD(std::cbrt(8.0), 2); EQ(std::fpclassify(0.0), FP_ZERO); EQD(std::ldexp(3.0f, 4), 48); EQD(std::pow(16.0f, 2), 256); EQ(std::lrint(2.0), 2); EQ(std::ilogb(8.0), 3); }
SC(mathsym) { double d = sv_u16("x"); EQD(std::ldexp(d, 4), d * 16); EQD(std::scalbn(d, 4), d * 16); EQD(std::pow(2.0, 4) * d, d * 16); EQD(std::fabs(d), d); EQD(std::floor(d), d); EQD(std::round(d), d); EQD(std::trunc(d), d); EQD(std::nearbyint(d), d); EQD(std::ceil(d), d); EQ(std::lround(d), sv_u16("x")); EQ(std::isnan(d), 0); EQ(std::signbit(d), 0); EQD(std::copysign(d, -1.0), -d); EQD(std::max(d, -1.0), d); EQD(std::fmax(d, -1.0), d); EQ(std::llround(d), sv_u16("x")); }
SC(mathexp) { int k = sv_u8("k") & 127; double d = std::ldexp(1.0, k); EQD(d, std::pow(2.0, k)); }
SC(mathexp2) { int k = sv_u8("k") & 127; EQD(std::pow(16.0, k - 64), std::ldexp(1.0, 4 * (k - 64))); EQD(std::exp2(k), std::ldexp(1.0, k)); }
SC(transform) { std::vector<int> a { 1, 2, sv_u8("x") }, b(3); std::transform(a.begin(), a.end(), b.begin(), [](int i) { return i * 2; }); EQ(b[2], sv_u8("x") * 2); std::generate(b.begin(), b.end(), [n = 0]() mutable { return n++; }); EQ(b[2], 2); std::iota(b.begin(), b.end(), 4); EQ(b[2], 6); EQ(std::accumulate(a.begin(), a.end(), 0), 3 + sv_u8("x")); std::for_each(a.begin(), a.end(), [](int& i) { ++i; }); EQ(a[0], 2); EQ(std::inner_product(b.begin(), b.end(), b.begin(), 0), 16 + 25 + 36); std::fill_n(b.begin(), 2, 9); EQ(b[1], 9); std::partial_sum(b.begin(), b.end(), b.begin()); EQ(b[1], 18); EQ(std::reduce(b.begin(), b.end()), b[0] + b[1] + b[2]); }
SC(search) { std::vector<int> a { 5, 3, 8, 1 }; EQ(std::find(a.begin(), a.end(), 8) - a.begin(), 2); EQ(std::find_if(a.begin(), a.end(), [](int i) { return i < 2; }) - a.begin(), 3); EQ(std::any_of(a.begin(), a.end(), [](int i) { return i > 7; }), 1); EQ(std::all_of(a.begin(), a.end(), [](int i) { return i > 7; }), 0); EQ(std::none_of(a.begin(), a.end(), [](int i) { return i > 9; }), 1); EQ(std::count(a.begin(), a.end(), 3), 1); EQ(std::count_if(a.begin(), a.end(), [](int i) { return i > 2; }), 3); EQ(*std::max_element(a.begin(), a.end()), 8); EQ(*std::min_element(a.begin(), a.end()), 1); std::sort(a.begin(), a.end()); EQ(a[0], 1); EQ(*std::lower_bound(a.begin(), a.end(), 4), 5); EQ(std::binary_search(a.begin(), a.end(), 5), 1); std::stable_sort(a.begin(), a.end(), std::greater<>()); EQ(a[0], 8); EQ(std::equal(a.begin(), a.end(), a.begin()), 1); a.erase(std::remove(a.begin(), a.end(), 5), a.end()); EQ(a.size(), 3); std::erase_if(a, [](int i) { return i == 8; }); EQ(a.size(), 2); EQ(std::clamp(5, 1, 3), 3); auto [lo, hi] = std::minmax(4, 2); EQ(lo, 2); std::partial_sort(a.begin(), a.begin() + 1, a.end()); std::nth_element(a.begin(), a.begin(), a.end()); auto u = std::unique(a.begin(), a.end()); (void)u; EQ(std::mismatch(a.begin(), a.end(), a.begin()).first == a.end(), 1); EQ(std::lexicographical_compare(a.begin(), a.end(), a.begin(), a.end()), 0); EQ(std::is_sorted(a.begin(), a.end()), 1); }
SC(bigsort) { std::vector<std::pair<int64_t, int>> a; for (int i = 0; i < 40; ++i) a.push_back({ (i * 7) % 40, i }); std::sort(a.begin(), a.end()); EQ(a[39].first, 39); std::stable_sort(a.begin(), a.end(), [](auto& x, auto& y) { return x.second < y.second; }); EQ(a[39].second, 39); std::make_heap(a.begin(), a.end()); std::sort_heap(a.begin(), a.end()); EQ(a[0].first, 0); std::list<int> l; for (int i = 0; i < 9; ++i) l.push_front(i); l.sort(); EQ(l.front(), 0); }
SC(ranges) { std::vector<int> a { 5, 3, 8 }; int s = 0; for (int i : a | std::views::reverse | std::views::take(2)) s = s * 10 + i; EQ(s, 83); for (int i : std::views::iota(0, 3)) s += a[i]; EQ(s, 99); std::ranges::copy(a, a.begin()); std::ranges::fill(a, 7); EQ(a[0], 7); auto t = a | std::views::transform([](int i) { return i + 1; }); EQ(*t.begin(), 8); EQ(std::ranges::find(a, 7) == a.begin(), 1); std::ranges::sort(a); }
SC(span) { char b[8] = {}; std::span<char> s(b); s[3] = 4; EQ(b[3], 4); auto t = s.subspan(2, 3); EQ(t[1], 4); EQ(t.size(), 3); EQ(std::as_bytes(s).size(), 8); }
SC(view) { std::string_view v = "((SEG: EndText))"; EQ(v.size(), 16); EQ(v.starts_with("((SEG"), 1); EQ(v.substr(2, 3) == "SEG", 1); EQ(v.find("End"), 7); std::string s(v); EQ(s.ends_with("))"), 1); EQ(s == v, 1); EQ(v.compare("x") < 0, 1); EQ(v.front(), '('); v.remove_prefix(2); EQ(v.front(), 'S'); }
SC(string) { std::string s = "abc"; s += 'd'; s += "ef"; s.append(3, 'x').append("yz", 1); EQ(s.size(), 10); s.insert(0, "q"); s.insert(s.begin(), 'r'); EQ(s[0], 'r'); s.erase(0, 2); s.resize(20, ' '); EQ(s[19], ' '); s.replace(0, 3, "AB"); EQ(s.find_last_not_of(' '), 8); EQ(s.substr(0, 2) == "AB", 1); EQ(s.rfind('x'), 7); s.assign(5, 'k'); s.push_back('l'); s.pop_back(); EQ(s == "kkkkk", 1); std::string t = s + "z" + s; EQ(t.size(), 11); EQ(s < t, 1); EQ(std::stoi("12"), 12); EQ(std::stoul("12"), 12); t.clear(); EQ(t.empty(), 1); std::string u(3200, ' '); u.reserve(5000); u.shrink_to_fit(); EQ(u.compare(0, 1, " "), 0); EQ(u.find_first_of("x"), std::string::npos); std::swap(s, t); EQ(s.data()[0], 0); EQ(std::string(10, 'a').at(3), 'a'); EQ(std::to_string(-25) == "-25", 1); EQ(std::to_string(uint64_t { 18446744073709551615u }).size(), 20); }
SC(cstr) { char b[20]; EQ(std::snprintf(b, 20, "%s%d", "ab", 5), 3); }
SC(cstr2) { char b[20]; std::strcpy(b, "abc"); EQ(std::strlen(b), 3); std::strcat(b, "d"); EQ(std::strcmp(b, "abcd"), 0); EQ(std::strncmp(b, "abx", 2), 0); std::strncpy(b, "zz", 5); EQ(b[4], 0); EQ(*std::strchr("abc", 'b'), 'b'); EQ(std::atoi("12"), 12); EQ(std::strtol("12", nullptr, 10), 12); EQ(std::isdigit('1') != 0, 1); EQ(std::toupper('a'), 'A'); EQ(std::isspace(' ') != 0, 1); }
SC(streams) { std::ostringstream o; o << "a" << 5 << std::setw(8) << std::setfill('0') << 7; EQ(o.str() == "a500000007", 1); }
SC(lists) { std::list<int> l { 1, 2, 3 }; l.push_back(4); l.remove(2); EQ(l.size(), 3); l.splice(l.begin(), std::list<int> { 9 }); EQ(l.front(), 9); std::deque<int> d; for (int i = 0; i < 300; ++i) d.push_back(i); d.pop_front(); EQ(d.front(), 1); EQ(d[298], 299); }
SC(maps) { std::map<std::string, int> m { { "b", 2 }, { "a", 1 } }; m.emplace("c", 3); m.insert({ "d", 4 }); m.try_emplace("e", 5); m.insert_or_assign("a", 7); EQ(m.begin()->second, 7); EQ(m.count("z"), 0); EQ(m.contains("b"), 1); m.erase("b"); EQ(m.size(), 4); EQ(m.at("c"), 3); EQ(m.lower_bound("c")->second, 3); std::multimap<int, int> mm; mm.emplace(1, 5); mm.emplace(1, 6); mm.emplace(0, 4); auto r = mm.equal_range(1); EQ(std::distance(r.first, r.second), 2); EQ(mm.begin()->second, 4); std::set<int> s { 3, 1 }; EQ(*s.begin(), 1); s.insert(0); EQ(*s.rbegin(), 3); std::unordered_map<int, int> u; for (int i = 0; i < 50; ++i) u[i] = i; EQ(u[30], 30); u.erase(30); EQ(u.count(30), 0); std::unordered_set<std::string> us { "x" }; EQ(us.contains("x"), 1); auto c = m; EQ(c == m, 1); auto it = m.find("d"); m.erase(it); EQ(m.size(), 3); auto nh = m.extract("a"); EQ(nh.mapped(), 7); m.merge(c); EQ(m.size(), 4); std::erase_if(m, [](auto& p) { return p.second > 4; }); }
SC(opt) { std::optional<int> o; EQ(o.has_value(), 0); o = 3; EQ(*o, 3); EQ(o.value_or(4), 3); o.reset(); EQ(o.value_or(4), 4); std::variant<int64_t, double, std::string> v = 2.5; EQ(v.index(), 1); v = std::string("x"); EQ(std::holds_alternative<std::string>(v), 1); v = int64_t { 4 }; EQ(std::visit([](auto&& x) -> int { if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x)>>) return x; else return 0; }, v), 4); EQ(std::get_if<double>(&v) == nullptr, 1); auto t = std::make_tuple(1, 2.0, "x"); EQ(std::get<0>(t), 1); auto [a, b, c] = t; EQ(b, 2); std::tie(a, b) = std::make_pair(3, 4.0); EQ(a, 3); EQ(std::apply([](int x, double, char const*) { return x; }, t), 1); }
SC(smart) { auto p = std::make_unique<int[]>(4); p[2] = 5; EQ(p[2], 5); auto q = std::make_shared<std::vector<int>>(3, 1); auto r = q; EQ(r.use_count(), 2); EQ((*r)[1], 1); std::weak_ptr<std::vector<int>> w = q; EQ(w.expired(), 0); struct A { virtual ~A() {} virtual int f() { return 1; } }; struct B : A { int f() override { return 2; } }; std::unique_ptr<A> a = std::make_unique<B>(); EQ(a->f(), 2); EQ(dynamic_cast<B*>(a.get()) != nullptr, 1); std::unique_ptr<A, void (*)(A*)> d(new B, [](A* x) { delete x; }); EQ(d->f(), 2); }
SC(func) { std::function<int(int)> f = [k = 3](int x) { return x + k; }; EQ(f(2), 5); f = nullptr; EQ(!f, 1); auto g = std::bind([](int a, int b) { return a - b; }, std::placeholders::_1, 2); EQ(g(5), 3); struct S { int v; int m(int x) { return x * v; } } s { 4 }; int (S::*pm)(int) = &S::m; EQ((s.*pm)(3), 12); EQ(std::invoke(&S::m, s, 2), 8); auto mf = std::mem_fn(&S::v); EQ(mf(s), 4); static int (*const tab[])(int) = { [](int x) { return x; }, [](int x) { return -x; } }; EQ(tab[1](5), -5); auto rf = std::ref(s); rf.get().v = 9; EQ(s.v, 9); auto h = std::bind_front([](int a, int b) { return a - b; }, 10); EQ(h(1), 9); }
static int once(int k) { static std::map<int, int> const t { { 1, 10 }, { 2, 20 } }; auto it = t.find(k); return it == t.end() ? -1 : it->second; }
static constexpr std::array<uint8_t, 256> mk() { std::array<uint8_t, 256> a {}; for (int i = 0; i < 256; ++i) a[i] = 255 - i; return a; }
SC(statics) { EQ(once(2), 20); static constexpr auto t = mk(); uint8_t x = sv_u8("x"); EQ(t[x], 255 - x); EQ(once(3), -1); }
SC(table) { static int const t[16] = { 1, 4, 9, 2, 7, 3, 5, 8, 0, 6, 11, 10, 13, 12, 15, 14 }; uint8_t x = sv_u8("x") & 15; int y = 0; switch (x) { case 0: y = 1; break; case 1: y = 4; break; case 2: y = 9; break; case 3: y = 2; break; case 4: y = 7; break; case 5: y = 3; break; case 6: y = 5; break; case 7: y = 8; break; case 8: y = 0; break; case 9: y = 6; break; case 10: y = 11; break; case 11: y = 10; break; case 12: y = 13; break; case 13: y = 12; break; case 14: y = 15; break; default: y = 14; } EQ(t[x], y); }
SC(exc) { int r = 0; try { throw std::runtime_error("x"); } catch (std::exception const& e) { r = 1; } EQ(r, 1); try { try { throw 5; } catch (...) { throw; } } catch (int i) { r = i; } EQ(r, 5); try { std::vector<int>().at(3); } catch (std::out_of_range const&) { r = 7; } EQ(r, 7); try { std::optional<int>().value(); } catch (std::bad_optional_access&) { r = 8; } EQ(r, 8); try { std::get<int>(std::variant<double, int>(1.0)); } catch (std::bad_variant_access&) { r = 9; } EQ(r, 9); try { std::map<int, int>().at(1); } catch (std::out_of_range&) { r = 10; } EQ(r, 10); try { throw std::invalid_argument("q"); } catch (std::logic_error&) { r = 11; } EQ(r, 11); struct G { int& r; ~G() { r = 12; } }; try { G g { r }; throw std::system_error(std::make_error_code(std::errc::io_error)); } catch (std::exception&) { } EQ(r, 12); }
SC(vec) { std::vector<double> v; v.reserve(3); v.push_back(1); v.insert(v.begin(), 2); v.insert(v.end(), 3, 7.0); v.emplace(v.begin(), 9); EQ(v.size(), 6); v.erase(v.begin()); v.pop_back(); v.assign(4, 1.5); EQD(v.back(), 1.5); std::vector<double> w(v.begin(), v.begin() + 2); w = std::move(v); EQ(w.size(), 4); w.swap(v); EQ(w.empty(), 1); w.shrink_to_fit(); std::vector<bool> b(70); b[65] = true; EQ(b[65], 1); b.push_back(true); EQ(std::count(b.begin(), b.end(), true), 2); std::vector<std::vector<int>> vv(3, std::vector<int>(2, 5)); vv.resize(5); EQ(vv[1][1], 5); EQ(vv[4].size(), 0); std::vector<std::string> vs { "a", "b" }; vs.insert(vs.begin() + 1, { "x", "y" }); EQ(vs[2] == "y", 1); vs.erase(vs.begin(), vs.begin() + 2); EQ(vs[0] == "y", 1); EQ(std::size(vs), 2); EQ(*std::next(vs.begin()) == "b", 1); }
SC(file) { sv_file("f", 20); std::ifstream f("f", std::ios::binary); EQ(f.is_open(), 1); char c; f.get(c); EQ(static_cast<uint8_t>(c), sv_filebyte("f", 0)); EQ(f.get(), sv_filebyte("f", 1)); f.ignore(3); EQ(f.tellg(), 5); EQ(f.peek(), sv_filebyte("f", 5)); f.seekg(-2, std::ios::end); EQ(f.tellg(), 18); char b[4]; f.read(b, 4); EQ(f.gcount(), 2); EQ(f.eof(), 1); EQ(f.fail(), 1); f.clear(); f.seekg(0); EQ(f.good(), 1); f.read(b, 4); EQ(!f, 0); EQ(static_cast<bool>(f), 1); f.unget(); EQ(f.tellg(), 3); f.close(); EQ(f.is_open(), 0); f.open("f"); EQ(f.rdstate() == std::ios::goodbit, 1); f.exceptions(std::ios::failbit); int r = 0; try { f.seekg(0); f.read(b, 4); f.seekg(19); f.read(b, 4); } catch (std::ios_base::failure&) { r = 1; } EQ(r, 1); }
SC(file2) { sv_file("f", 20); std::ifstream f("f", std::ios::binary); std::istreambuf_iterator<char> i(f), e; std::string s(i, e); EQ(s.size(), 20); EQ(static_cast<uint8_t>(s[7]), sv_filebyte("f", 7)); }
SC(file3) { sv_file("f", 20); std::ifstream f("f", std::ios::binary); auto* sb = f.rdbuf(); char b[4]; EQ(sb->sgetn(b, 4), 4); EQ(static_cast<uint8_t>(b[3]), sv_filebyte("f", 3)); EQ(sb->sbumpc(), sv_filebyte("f", 4)); sb->pubseekoff(1, std::ios::cur); EQ(static_cast<int>(sb->sgetc()), sv_filebyte("f", 6)); sb->pubseekpos(3); EQ(f.tellg(), 3); }
SC(ofile) { { std::ofstream o("g", std::ios::binary); o.put(3); o.write("abc", 3); o << 'x' << "yz"; std::string s = "q"; o << s; o.seekp(1); o.put('Z'); EQ(o.tellp(), 2); o.seekp(0, std::ios::end); EQ(o.tellp(), 8); o.flush(); std::vector<char> v { 'k' }; std::copy(v.begin(), v.end(), std::ostreambuf_iterator<char>(o)); std::fill_n(std::ostream_iterator<char>(o), 2, 'w'); } EQ(sv_filesize("g"), 11); EQ(sv_filebyte("g", 1), 'Z'); EQ(sv_filebyte("g", 7), 'q'); EQ(sv_filebyte("g", 8), 'k'); EQ(sv_filebyte("g", 10), 'w'); }
SC(filemove) { sv_file("f", 20); std::ifstream a("f", std::ios::binary); std::ifstream f(std::move(a)); EQ(f.get(), sv_filebyte("f", 0)); std::fstream g("h", std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc); g.write("abcd", 4); g.seekg(1); EQ(g.get(), 'b'); g.seekp(2); g.put('Q'); EQ(sv_filebyte("h", 2), 'Q'); }
SC(fileuptr) { sv_file("f", 20); auto f = std::make_unique<std::ifstream>("f", std::ios::binary); EQ(f->get(), sv_filebyte("f", 0)); std::istream& s = *f; char b[3]; s.read(b, 3); EQ(static_cast<uint8_t>(b[2]), sv_filebyte("f", 3)); }
SC(sstream) { std::string raw("\1\2\3\4", 4); std::istringstream i(raw); char b[2]; i.read(b, 2); EQ(b[1], 2); }
SC(union_) { union { uint32_t u; float f; unsigned char b[4]; } x; x.u = sv_u32("x"); EQ(x.b[1], (sv_u32("x") >> 8) & 255); struct B { unsigned a : 4, b : 4; } q; uint8_t y = sv_u8("y"); memcpy(&q, &y, 1); EQ(q.b, y >> 4); }
SC(loops) { uint32_t r = 0; uint8_t b[4]; for (int i = 0; i < 4; ++i) b[i] = sv_u8(std::to_string(i).c_str()); for (uint8_t c : b) r = r << 8 | c; uint32_t z = 0; for (size_t i = 4; i-- > 0;) z |= static_cast<uint32_t>(b[i]) << (24 - 8 * i); EQ(r, z); uint32_t w = 0; int i = 0; do { w = w * 256 + b[i]; } while (++i < 4); EQ(w, r); int n = 0; while (n < 10) { if (n == 5) break; if (n++ == 2) continue; } EQ(n, 5); w = 0; for (auto p = b; p != b + 4; w <<= 8, w += *p++) ; EQ(w, r); }
SC(recur) { std::function<int(int)> f = [&](int n) { return n < 2 ? n : f(n - 1) + f(n - 2); }; EQ(f(10), 55); }
SC(limits) { EQ(std::numeric_limits<int16_t>::max(), 32767); int64_t v = sv_i64("v"); bool in = v >= std::numeric_limits<int16_t>::min() && v <= std::numeric_limits<int16_t>::max(); EQ(in, v == static_cast<int16_t>(v)); EQ(std::in_range<int16_t>(v), in); EQ(std::cmp_less(-1, 1u), 1); }
SC(thread) { static thread_local int t = 4; t += 1; EQ(t, 5); }
SC(int128) { uint64_t x = sv_u32("x"); unsigned __int128 y = static_cast<unsigned __int128>(x) << 40; EQ(static_cast<uint64_t>(y >> 40), x); }
SC(divmod) { uint32_t x = sv_u8("x"); EQ(x / 16 * 16 + x % 16, x); EQ(x >> 4, x / 16); auto d = std::div(37, 10); EQ(d.quot, 3); EQ(d.rem, 7); }
SC(inter) { static std::vector<std::pair<int, char const*>> const t { { 3, "a" }, { 1, "b" } }; EQ(t[1].second[0], 'b'); int a[2][3] = { { 1, 2, 3 }, { 4, 5, 6 } }; int s = 0; for (auto& r : a) for (int v : r) s += v; EQ(s, 21); std::initializer_list<int> il { 1, 2 }; EQ(*(il.end() - 1), 2); enum class E { a, b }; EQ(static_cast<int>(E::b), 1); constexpr auto L = [](auto... v) { return (v + ...); }; EQ(L(1, 2, 3), 6); }
