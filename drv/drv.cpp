// Replay / search driver: runs command lines from a file against the real library and prints one line per command.
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <iostream>
#include <fstream>
#include <map>
#include <functional>
#include <tuple>
#include <algorithm>
#include <any>
#include <unordered_map>
#include "BigIntegerImpl.h"
#include "BigInteger.h"
#include "Status.h"
#include "errInfos.h"
#include "algorithm.h"
#ifdef D_FRAC
#include "Fraction.h"
#endif
#ifdef D_EVAL
#include "expr.h"
#endif
#ifdef D_C
#include "pgbn.h"
#endif
#ifdef D_STATUS
#include <thread>
#include <atomic>
#include <deque>
#include <unistd.h>
#include <sys/wait.h>
#endif
using namespace std;
using pgbn::BigIntegerImpl; using pgbn::BigInteger; using pgbn::Status;
typedef vector<string> A;
static unique_ptr<BigIntegerImpl> I[10];
static unique_ptr<BigInteger> W[10];
static string O; // output
struct Buf { char * p; size_t n; Buf(const string & s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); } ~Buf() { delete[] p; } const char * data() const { return p; } size_t size() const { return n; } }; // exact-size heap copy
static vector<function<void()>> RESET;
static int N(const string & s) { return atoi(s.c_str()); }
static int64_t L(const string & s) { return strtoll(s.c_str(), 0, 10); }
static uint64_t U(const string & s) { return strtoull(s.c_str(), 0, 10); }
static string unhex(const string & s) { string r; if (s == "-") return r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)stoi(s.substr(i, 2), 0, 16); return r; }
static string hex(const string & s) { string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r.empty() ? "-" : r; }
static unique_ptr<BigIntegerImpl> mk(string v, int lo = 1, int extra = 0) {
  bool neg = v[0] == '-'; if (neg) v = v.substr(1);
  if (v == "0") return make_unique<BigIntegerImpl>();
  vector<uint32_t> w; for (size_t e = v.size(); e > 0;) { size_t b = e > 8 ? e - 8 : 0; w.push_back((uint32_t)stoul(v.substr(b, e - b), 0, 16)); e = b; }
  auto p = make_shared<vector<uint32_t>>(); for (int i = 0; i < lo; i++) p->push_back(0xdeadbeef); for (auto x : w) p->push_back(x); for (int i = 0; i < extra; i++) p->push_back(0xcafebabe);
  pgbn::Slice<uint32_t> s(p, lo, lo + w.size());
  p.reset();
  return make_unique<BigIntegerImpl>(std::move(s), neg ? -1 : 1);
}
static string dump(const BigIntegerImpl & b) {
  char t[64]; string r;
#ifndef D_PUBLIC
  uint64_t n = b.m_mag.count(); unsigned f = b.m_flags & 7;
  snprintf(t, 64, "%u:%llu:", f, (unsigned long long)n); r = t;
  for (uint64_t i = n; i-- > 0;) { snprintf(t, 64, "%08x", (unsigned)*(b.m_mag.begin() + i)); r += t; }
#else
  unsigned f = (b.flagsContains(pgbn::BNFlag::ZERO) ? 1 : 0) | (b.flagsContains(pgbn::BNFlag::POSITIVE) ? 2 : 0) | (b.flagsContains(pgbn::BNFlag::NEGATIVE) ? 4 : 0);
  uint64_t n = b.getMagU32Count(); string buf(n * 4 + 8, 0); b.copyMagDataTo(&buf[0], buf.size());
  snprintf(t, 64, "%u:%llu:", f, (unsigned long long)n); r = t;
  for (uint64_t i = n * 4; i-- > 0;) { snprintf(t, 64, "%02x", (unsigned)(unsigned char)buf[i]); r += t; }
#endif
  return r;
}
static string dumpw(const BigInteger & w) {
#ifndef D_PUBLIC
  if (!w.m_pImpl) return "null";
  return dump(*w.m_pImpl);
#else
  char t[64]; string buf(1 << 16, 0); uint64_t n = w.copyMagDataTo(&buf[0], buf.size());
  string r; snprintf(t, 64, "%d:%llu:", (w.isZero() ? 1 : 0) | (w.isPositive() ? 2 : 0) | (w.isNegative() ? 4 : 0), (unsigned long long)((n + 3) / 4)); r = t;
  for (uint64_t i = (n + 3) / 4 * 4; i-- > 0;) { snprintf(t, 64, "%02x", (unsigned)(unsigned char)buf[i]); r += t; }
  return r;
#endif
}
static unsigned stof(Status & s) {
#ifndef D_PUBLIC
  return s.m_errno;
#else
  for (unsigned i = 0; i < pgbn::errInfoCount; i++) if (s.getInfo() == pgbn::errInfos[i].info) return pgbn::errInfos[i].code;
  return 99;
#endif
}
static unsigned st() { return stof(*Status::getInstance()); }
static void setst() { *Status::getInstance() = pgbn::ErrCode::ARITHMETIC_OVERFLOW; }
static void P(const string & s) { if (!O.empty()) O += ' '; O += s; }
template <class T> static void PN(T v) { P(to_string(v)); }
template <class X, class F> static void exportTo(X & x, uint64_t n, F f) {
#ifdef DRV_SAN
  { char * q = (char *)malloc(n ? n : 1); f(x, n ? (void *)q : (void *)(q + 1), n); free(q); } // nothing beyond the capacity
#endif
  string buf(n + 16, (char)0xAA); uint64_t r = f(x, (void *)&buf[0], n); PN(r); P(hex(buf));
}
static map<string, function<void(const A &)>> M;
static void bin(BigIntegerImpl & a, const string & op, const BigIntegerImpl & b) {
  if (op == "add") a.addAssign(b); else if (op == "sub") a.subAssign(b); else if (op == "mul") a.mulAssign(b); else if (op == "div") a.divAssign(b);
  else if (op == "and") a.andAssign(b); else if (op == "or") a.orAssign(b); else if (op == "xor") a.xorAssign(b); else P("?");
}
static void bini(BigIntegerImpl & a, const string & op, int64_t b) {
  if (op == "add") a.addAssign(b); else if (op == "sub") a.subAssign(b); else if (op == "mul") a.mulAssign(b); else if (op == "div") a.divAssign(b);
  else if (op == "and") a.andAssign(b); else if (op == "or") a.orAssign(b); else if (op == "xor") a.xorAssign(b); else P("?");
}
template <class T> static void wop(BigInteger & a, const string & op, const T & b) {
  if (op == "add") a += b; else if (op == "sub") a -= b; else if (op == "mul") a *= b; else if (op == "div") a /= b; else if (op == "mod") a %= b;
  else if (op == "and") a &= b; else if (op == "or") a |= b; else if (op == "xor") a ^= b; else P("?");
}
template <class S, class T> static BigInteger wbin(const S & a, const string & op, const T & b) {
  if (op == "add") return a + b; else if (op == "sub") return a - b; else if (op == "mul") return a * b; else if (op == "div") return a / b; else if (op == "mod") return a % b;
  else if (op == "and") return a & b; else if (op == "or") return a | b; else if (op == "xor") return a ^ b;
  P("?"); return BigInteger(0);
}
template <class S, class T> static void rel(const S & a, const T & b) {
  string r; r += '0' + (a == b); r += '0' + (a != b); r += '0' + (a < b); r += '0' + (a <= b); r += '0' + (a > b); r += '0' + (a >= b); P(r);
}
static int sg(int x) { return x < 0 ? -1 : x > 0; }
static void setW(int r, BigInteger && v) { W[r] = make_unique<BigInteger>(std::move(v)); }
static void regs() {
  RESET.push_back([] { for (int i = 0; i < 10; i++) { I[i] = make_unique<BigIntegerImpl>(); W[i] = make_unique<BigInteger>(); } });
  M["Ini"] = [](const A & a) { I[N(a[1])] = mk(a[2], a.size() > 3 ? N(a[3]) : 1, a.size() > 4 ? N(a[4]) : 0); };
  M["Icp"] = [](const A & a) { I[N(a[1])] = make_unique<BigIntegerImpl>(*I[N(a[2])]); };
  M["Iap"] = [](const A & a) { I[N(a[1])]->assign(*I[N(a[2])]); };
  M["Iop"] = [](const A & a) { I[N(a[1])]->operator=(*I[N(a[2])]); };
  M["Imv"] = [](const A & a) { auto p = make_unique<BigIntegerImpl>(std::move(*I[N(a[2])])); I[N(a[2])] = make_unique<BigIntegerImpl>(); I[N(a[1])] = std::move(p); };
  M["Ima"] = [](const A & a) { I[N(a[1])]->assign(std::move(*I[N(a[2])])); I[N(a[2])] = make_unique<BigIntegerImpl>(); };
  M["Imo"] = [](const A & a) { I[N(a[1])]->operator=(std::move(*I[N(a[2])])); I[N(a[2])] = make_unique<BigIntegerImpl>(); };
  M["Isw"] = [](const A & a) { I[N(a[1])]->swap(*I[N(a[2])]); };
  M["I64"] = [](const A & a) { I[N(a[1])] = make_unique<BigIntegerImpl>(L(a[2])); };
  M["Ia6"] = [](const A & a) { I[N(a[1])]->assign(L(a[2])); };
  M["Ib"] = [](const A & a) { bin(*I[N(a[2])], a[1], *I[N(a[3])]); };
  M["Ibi"] = [](const A & a) { bini(*I[N(a[2])], a[1], L(a[3])); };
  M["Idr"] = [](const A & a) { I[N(a[1])]->divideAssignAndReminder(*I[N(a[2])], *I[N(a[3])]); };
  M["Imq"] = [](const A & a) { I[N(a[1])]->modAssignAndQuotient(*I[N(a[2])], *I[N(a[3])]); };
  M["Idri"] = [](const A & a) { I[N(a[1])]->divideAssignAndReminder(L(a[2]), *I[N(a[3])]); };
  M["Imqi"] = [](const A & a) { I[N(a[1])]->modAssignAndQuotient(L(a[2]), *I[N(a[3])]); };
  M["Imul"] = [](const A & a) { BigIntegerImpl::mul(*I[N(a[1])], *I[N(a[2])], *I[N(a[3])]); };
  M["Idiv"] = [](const A & a) { BigIntegerImpl::div(*I[N(a[1])], *I[N(a[2])], *I[N(a[3])], *I[N(a[4])]); };
  M["Idivi"] = [](const A & a) { BigIntegerImpl::div(*I[N(a[1])], *I[N(a[2])], *I[N(a[3])], L(a[4])); };
  M["Iun"] = [](const A & a) { auto & x = *I[N(a[2])]; auto & o = a[1]; if (o == "notself") x.notSelf(); else if (o == "notbits") x.notBits(); else if (o == "neg") x.negate(); else if (o == "abs") x.abs(); else if (o == "inc") x.inc(); else if (o == "dec") x.dec(); else P("?"); };
  M["Ishl"] = [](const A & a) { I[N(a[1])]->shiftLeftAssign(U(a[2])); };
  M["Ishr"] = [](const A & a) { I[N(a[1])]->shiftRightAssign(U(a[2])); };
  M["Icmp"] = [](const A & a) { PN(sg(I[N(a[1])]->cmp(*I[N(a[2])]))); };
  M["Iu32"] = [](const A & a) { PN(I[N(a[1])]->getU32(U(a[2]))); };
  M["Iu64"] = [](const A & a) { PN(I[N(a[1])]->toU64()); };
  M["Ipr"] = [](const A & a) { auto & x = *I[N(a[1])]; PN((int)x.isZero()); PN((int)x.isOne()); PN((int)x.isNegOne()); PN((int)x.isOdd()); PN((int)x.isEven()); };
  M["Ifl"] = [](const A & a) { auto & x = *I[N(a[1])]; PN((int)x.flagsContains(1)); PN((int)x.flagsContains(2)); PN((int)x.flagsContains(4)); };
  M["Ict"] = [](const A & a) { auto & x = *I[N(a[1])]; PN(x.getMagU32Count()); auto t = x.getMagBitCount(); PN(std::get<0>(t) + std::get<1>(t) * 32); };
  M["Istr"] = [](const A & a) { P(I[N(a[1])]->toString(N(a[2]))); };
  M["Ips"] = [](const A & a) { string s = unhex(a[3]); bool ok = N(a[4]); setst(); I[N(a[1])]->fromString(pgbn::StringArg(s.data(), s.size()), N(a[2]), &ok); PN((int)ok); PN(st()); };
  M["Ipn"] = [](const A & a) { string s = unhex(a[3]); setst(); I[N(a[1])]->fromString(pgbn::StringArg(s.data(), s.size()), N(a[2])); PN(st()); };
  M["Ipc"] = [](const A & a) { string s = unhex(a[3]); bool ok = N(a[4]); setst(); I[N(a[1])] = make_unique<BigIntegerImpl>(pgbn::StringArg(s.data(), s.size()), N(a[2]), &ok); PN((int)ok); PN(st()); };
  M["Ibn"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); I[N(a[1])]->assign((const void *)v.data(), (pgbn::SizeType)v.size(), (bool)N(a[2])); };
  M["Ibc"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); I[N(a[1])] = make_unique<BigIntegerImpl>((const void *)v.data(), (pgbn::SizeType)v.size(), (bool)N(a[2])); };
  M["Ibnd"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); I[N(a[1])]->assign((const void *)v.data(), (pgbn::SizeType)v.size()); };
  M["Ibcd"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); I[N(a[1])] = make_unique<BigIntegerImpl>((const void *)v.data(), (pgbn::SizeType)v.size()); };
  M["Ipd"] = [](const A & a) { string s = unhex(a[2]); setst(); I[N(a[1])]->fromString(pgbn::StringArg(s.data(), s.size())); PN(st()); };
  M["Ipcd"] = [](const A & a) { string s = unhex(a[2]); setst(); I[N(a[1])] = make_unique<BigIntegerImpl>(pgbn::StringArg(s.data(), s.size())); PN(st()); };
  M["Iex"] = [](const A & a) { exportTo(*I[N(a[1])], U(a[2]), [](BigIntegerImpl & x, void * p, uint64_t n) { return x.copyMagDataTo(p, n); }); };
  M["Id"] = [](const A & a) { for (size_t i = 1; i < a.size(); i++) P(dump(*I[N(a[i])])); };
  M["st"] = [](const A &) { PN(st()); };
  M["setst"] = [](const A &) { setst(); };
  // BigInteger
  M["Wni"] = [](const A & a) { W[N(a[1])] = make_unique<BigInteger>(mk(a[2], a.size() > 3 ? N(a[3]) : 1, a.size() > 4 ? N(a[4]) : 0)); };
  M["Wcp"] = [](const A & a) { auto p = make_unique<BigInteger>(*W[N(a[2])]); W[N(a[1])] = std::move(p); };
  M["Was"] = [](const A & a) { *W[N(a[1])] = *W[N(a[2])]; };
  M["Wmv"] = [](const A & a) { auto p = make_unique<BigInteger>(std::move(*W[N(a[2])])); W[N(a[2])] = make_unique<BigInteger>(); W[N(a[1])] = std::move(p); };
  M["Wma"] = [](const A & a) { *W[N(a[1])] = std::move(*W[N(a[2])]); if (a[1] != a[2]) W[N(a[2])] = make_unique<BigInteger>(); };
  M["W64"] = [](const A & a) { W[N(a[1])] = make_unique<BigInteger>(L(a[2])); };
  M["Wa6"] = [](const A & a) { *W[N(a[1])] = (int64_t)L(a[2]); };
  M["Wag"] = [](const A & a) { W[N(a[1])]->assign((int64_t)L(a[2])); };
  M["Wb"] = [](const A & a) { wop(*W[N(a[2])], a[1], *W[N(a[3])]); };
  M["Wbi"] = [](const A & a) { wop(*W[N(a[2])], a[1], (int64_t)L(a[3])); };
  M["Wv"] = [](const A & a) { setW(N(a[2]), wbin(*W[N(a[3])], a[1], *W[N(a[4])])); };
  M["Wvi"] = [](const A & a) { setW(N(a[2]), wbin(*W[N(a[3])], a[1], (int64_t)L(a[4]))); };
  M["Wiv"] = [](const A & a) { setW(N(a[2]), wbin((int64_t)L(a[3]), a[1], *W[N(a[4])])); };
  M["Wun"] = [](const A & a) { auto & x = *W[N(a[2])]; auto & o = a[1]; if (o == "notself") x.notSelf(); else if (o == "notbits") x.notBits(); else if (o == "neg") x.negate(); else if (o == "abs") x.abs(); else if (o == "inc") ++x; else if (o == "dec") --x; else P("?"); };
  M["Wuv"] = [](const A & a) { auto & x = *W[N(a[3])]; auto & o = a[1]; int d = N(a[2]); if (o == "not") setW(d, ~x); else if (o == "neg") setW(d, -x); else if (o == "pos") setW(d, +x); else if (o == "negated") setW(d, x.negated()); else if (o == "absd") setW(d, x.absoluted()); else if (o == "pinc") { auto t = x++; setW(d, std::move(t)); } else if (o == "pdec") { auto t = x--; setW(d, std::move(t)); } else P("?"); };
  M["Wshl"] = [](const A & a) { *W[N(a[1])] <<= U(a[2]); };
  M["Wshr"] = [](const A & a) { *W[N(a[1])] >>= U(a[2]); };
  M["Wshlv"] = [](const A & a) { setW(N(a[1]), *W[N(a[2])] << L(a[3])); };
  M["Wshrv"] = [](const A & a) { setW(N(a[1]), *W[N(a[2])] >> L(a[3])); };
  M["Wcmp"] = [](const A & a) { auto & x = *W[N(a[1])]; auto & y = *W[N(a[2])]; PN(sg(x.cmp(y))); rel(x, y); };
  M["Wcmpi"] = [](const A & a) { auto & x = *W[N(a[1])]; int64_t y = L(a[2]); PN(sg(x.cmp(y))); rel(x, y); rel(y, x); };
  M["Wu32"] = [](const A & a) { PN(W[N(a[1])]->get2sComplement(U(a[2]))); };
  M["Wpr"] = [](const A & a) { auto & x = *W[N(a[1])]; PN((int)x.isZero()); PN((int)x.isOne()); PN((int)x.isNegOne()); PN((int)x.isPositive()); PN((int)x.isNegative()); PN((int)x.isOdd()); PN((int)x.isEven()); };
  M["Wget"] = [](const A & a) {
    auto & x = *W[N(a[1])]; bool init = N(a[2]); bool ok = init; setst(); int64_t i = x.getInt64(&ok); PN(i); PN((int)ok); PN(st());
    int64_t q = 5; ok = x.tryGetInt64(q); PN(q); PN((int)ok);
    ok = init; setst(); uint64_t u = x.getUInt64(&ok); PN(u); PN((int)ok); PN(st());
    uint64_t w = 5; ok = x.tryGetUInt64(w); PN(w); PN((int)ok);
    PN(x.getInt64()); PN(x.getUInt64());
  };
  M["Was_"] = [](const A & a) {
    auto & x = *W[N(a[1])]; PN((unsigned)(unsigned char)x.as<char>()); PN((unsigned)x.as<unsigned char>()); PN(x.as<short>()); PN(x.as<unsigned short>()); PN(x.as<int>()); PN(x.as<unsigned int>());
    PN(x.as<long>()); PN(x.as<unsigned long>()); PN(x.as<long long>()); PN(x.as<unsigned long long>()); PN((int)x.as<bool>()); P(x.as<std::string>());
  };
  M["Wstr"] = [](const A & a) { P(W[N(a[1])]->toString(N(a[2]))); };
  M["Wps"] = [](const A & a) { string s = unhex(a[3]); bool ok = N(a[4]); setst(); W[N(a[1])]->assign(pgbn::StringArg(s.data(), s.size()), N(a[2]), &ok); PN((int)ok); PN(st()); };
  M["Wpc"] = [](const A & a) { string s = unhex(a[3]); bool ok = N(a[4]); setst(); W[N(a[1])] = make_unique<BigInteger>(pgbn::StringArg(s.data(), s.size()), N(a[2]), &ok); PN((int)ok); PN(st()); };
  M["Wbn"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); W[N(a[1])]->fromBinary((const void *)v.data(), (pgbn::SizeType)v.size(), (bool)N(a[2])); };
  M["Wbc"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); W[N(a[1])] = make_unique<BigInteger>((pgbn::SizeType)v.size(), (const void *)v.data(), (bool)N(a[2])); };
  M["Wbnd"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); W[N(a[1])]->fromBinary((const void *)v.data(), (pgbn::SizeType)v.size()); };
  M["Wbcd"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); W[N(a[1])] = make_unique<BigInteger>((pgbn::SizeType)v.size(), (const void *)v.data()); };
  M["Wpd"] = [](const A & a) { string s = unhex(a[2]); setst(); W[N(a[1])]->assign(pgbn::StringArg(s.data(), s.size())); PN(st()); };
  M["Wpcd"] = [](const A & a) { string s = unhex(a[2]); setst(); W[N(a[1])] = make_unique<BigInteger>(pgbn::StringArg(s.data(), s.size())); PN(st()); };
  M["Wstrd"] = [](const A & a) { P(W[N(a[1])]->toString()); };
  M["Wex"] = [](const A & a) { exportTo(*W[N(a[1])], U(a[2]), [](BigInteger & x, void * p, uint64_t n) { return x.copyMagDataTo(p, n); }); };
  M["Wd"] = [](const A & a) { for (size_t i = 1; i < a.size(); i++) P(dumpw(*W[N(a[i])])); };
  M["gcd"] = [](const A & a) { setW(N(a[1]), pgbn::algo::gcd(*W[N(a[2])], *W[N(a[3])])); };
#ifdef D_FRAC
  using pgbn::experimental::Fraction;
  static unique_ptr<Fraction> F[6]; RESET.push_back([] { for (auto & f : F) f = make_unique<Fraction>(); });
  static auto fr = [](const Fraction & f) { P(dumpw(f.getNum())); P(dumpw(f.getDen())); };
  M["Fnew"] = [](const A & a) { bool ok = N(a[4]); setst(); F[N(a[1])] = make_unique<Fraction>(*W[N(a[2])], *W[N(a[3])], &ok); PN((int)ok); PN(st()); };
  M["Fcp"] = [](const A & a) { F[N(a[1])] = make_unique<Fraction>(Fraction(*F[N(a[2])])); };
  M["Fi"] = [](const A & a) { F[N(a[1])] = make_unique<Fraction>(*W[N(a[2])]); };
  M["Fnum"] = [](const A & a) { F[N(a[1])]->setNum(*W[N(a[2])]); };
  M["Fden"] = [](const A & a) { bool ok = N(a[3]); setst(); F[N(a[1])]->setDen(*W[N(a[2])], &ok); PN((int)ok); PN(st()); };
  M["Fb"] = [](const A & a) { auto & x = *F[N(a[3])]; auto & y = *F[N(a[4])]; auto & o = a[1]; setst(); Fraction r = o == "add" ? x + y : o == "sub" ? x - y : o == "mul" ? x * y : x / y; PN(st()); F[N(a[2])] = make_unique<Fraction>(r); };
  M["Frec"] = [](const A & a) { bool ok = N(a[3]); setst(); Fraction r = F[N(a[2])]->reciprocal(&ok); PN((int)ok); PN(st()); F[N(a[1])] = make_unique<Fraction>(r); };
  M["Fd"] = [](const A & a) { for (size_t i = 1; i < a.size(); i++) fr(*F[N(a[i])]); };
  M["Fstr"] = [](const A & a) { P(F[N(a[1])]->toString(N(a[2]))); };
  M["Fdec"] = [](const A & a) { P(F[N(a[1])]->toDecimal(N(a[2]))); };
#endif
#ifdef D_EVAL
  // the status afterwards: the one in use, then the other one (which must stay untouched unless it is the library's own)
  M["ev"] = [](const A & a) { string s = unhex(a[1]); Buf v(s); *Status::getInstance() = 0u; auto r = pgbn::expr::eval(pgbn::StringArg(v.data(), v.size())); P(dumpw(r)); P(to_string(st()) + "/" + to_string(st())); };
  M["evs"] = [](const A & a) { string s = unhex(a[1]); Buf v(s); Status u; u = 0u; *Status::getInstance() = 0u; auto r = pgbn::expr::eval(pgbn::StringArg(v.data(), v.size()), &u); P(dumpw(r)); P(to_string(stof(u)) + "/" + to_string(st())); };
#endif
#ifdef D_C
  static pgbn_BigInteger_t * C[10]; RESET.push_back([] { for (auto & c : C) { if (c) pgbn_BigInteger_Destroy(c); c = pgbn_BigInteger_Create(); } });
  static auto rep = [](int r, pgbn_BigInteger_t * p) { pgbn_BigInteger_Destroy(C[r]); C[r] = p; };
  M["Cni"] = [](const A & a) { string v = a[2]; bool neg = v[0] == '-'; if (neg) v = v.substr(1); if (v.size() % 2) v = "0" + v; string b = unhex(v); b = string(1, '\0') + b; reverse(b.begin(), b.end()); rep(N(a[1]), pgbn_BigInteger_CreateWithBin(b.size(), b.data(), true)); if (neg) pgbn_BigInteger_Negate(C[N(a[1])]); };
  M["Cnew"] = [](const A & a) { rep(N(a[1]), pgbn_BigInteger_Create()); };
  M["Ccp"] = [](const A & a) { rep(N(a[1]), pgbn_BigInteger_CreateWithCopying(C[N(a[2])])); };
  M["C64"] = [](const A & a) { rep(N(a[1]), pgbn_BigInteger_CreateWithI64(L(a[2]))); };
  M["Cps"] = [](const A & a) { string s = unhex(a[3]); auto * p = pgbn_BigInteger_CreateWithStr(s.c_str(), N(a[2])); PN((int)(p != 0)); if (p) rep(N(a[1]), p); };
  M["Cbc"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); rep(N(a[1]), pgbn_BigInteger_CreateWithBin(v.size(), v.data(), N(a[2]))); };
  M["Cas"] = [](const A & a) { pgbn_BigInteger_Copy(C[N(a[1])], C[N(a[2])]); };
  M["Ca6"] = [](const A & a) { pgbn_BigInteger_AssignWithI64(C[N(a[1])], L(a[2])); };
  M["Cap"] = [](const A & a) { string s = unhex(a[3]); PN((int)pgbn_BigInteger_AssignWithStr(C[N(a[1])], s.c_str(), N(a[2]))); };
  M["Cbn"] = [](const A & a) { string s = unhex(a[3]); Buf v(s); pgbn_BigInteger_AssignWithBin(C[N(a[1])], v.data(), v.size(), N(a[2])); };
  M["Cget"] = [](const A & a) { auto * x = C[N(a[1])]; bool ok = N(a[2]); PN(pgbn_BigInteger_GetInt64WithChecking(x, &ok)); PN((int)ok); ok = N(a[2]); PN(pgbn_BigInteger_GetUInt64WithChecking(x, &ok)); PN((int)ok); PN(pgbn_BigInteger_GetInt64(x)); PN(pgbn_BigInteger_GetUInt64(x)); };
  M["Cu32"] = [](const A & a) { PN(pgbn_BigInteger_Get2sComplementBlock(C[N(a[1])], U(a[2]))); };
  M["Cstr"] = [](const A & a) { auto * s = pgbn_BigInteger_ToString(C[N(a[1])], N(a[2])); P(string(pgbn_String_CStr(s), pgbn_String_Length(s))); PN(strlen(pgbn_String_CStr(s))); pgbn_String_Destroy(s); };
  M["Cex"] = [](const A & a) { exportTo(C[N(a[1])], U(a[2]), [](pgbn_BigInteger_t * x, void * p, uint64_t n) { return pgbn_BigInteger_GetMagData(x, p, n); }); };
  M["Cpr"] = [](const A & a) { auto * x = C[N(a[1])]; PN((int)pgbn_BigInteger_IsZero(x)); PN((int)pgbn_BigInteger_IsOne(x)); PN((int)pgbn_BigInteger_IsNegOne(x)); PN((int)pgbn_BigInteger_IsPositive(x)); PN((int)pgbn_BigInteger_IsNegative(x)); PN((int)pgbn_BigInteger_IsOdd(x)); PN((int)pgbn_BigInteger_IsEven(x)); };
  M["Cun"] = [](const A & a) { auto * x = C[N(a[2])]; auto & o = a[1]; if (o == "notself") pgbn_BigInteger_NotSelf(x); else if (o == "notbits") pgbn_BigInteger_NotSelfBits(x); else if (o == "neg") pgbn_BigInteger_Negate(x); else if (o == "abs") pgbn_BigInteger_AbsSelf(x); else if (o == "inc") pgbn_BigInteger_Inc(x); else if (o == "dec") pgbn_BigInteger_Dec(x); else P("?"); };
  M["Cb"] = [](const A & a) { auto * x = C[N(a[2])]; auto * y = C[N(a[3])]; auto & o = a[1];
    if (o == "add") pgbn_BigInteger_AddAssign(x, y); else if (o == "sub") pgbn_BigInteger_SubAssign(x, y); else if (o == "mul") pgbn_BigInteger_MulAssign(x, y); else if (o == "div") pgbn_BigInteger_DivAssign(x, y); else if (o == "mod") pgbn_BigInteger_ModAssign(x, y);
    else if (o == "and") pgbn_BigInteger_AndAssign(x, y); else if (o == "or") pgbn_BigInteger_OrAssign(x, y); else if (o == "xor") pgbn_BigInteger_XorAssign(x, y); else P("?"); };
  M["Cbi"] = [](const A & a) { auto * x = C[N(a[2])]; int64_t y = L(a[3]); auto & o = a[1];
    if (o == "add") pgbn_BigInteger_AddAssignWithI64(x, y); else if (o == "sub") pgbn_BigInteger_SubAssignWithI64(x, y); else if (o == "mul") pgbn_BigInteger_MulAssignWithI64(x, y); else if (o == "div") pgbn_BigInteger_DivAssignWithI64(x, y); else if (o == "mod") pgbn_BigInteger_ModAssignWithI64(x, y);
    else if (o == "and") pgbn_BigInteger_AndAssignWithI64(x, y); else if (o == "or") pgbn_BigInteger_OrAssignWithI64(x, y); else if (o == "xor") pgbn_BigInteger_XorAssignWithI64(x, y); else P("?"); };
  M["Cshl"] = [](const A & a) { pgbn_BigInteger_SHLAssignWithI64(C[N(a[1])], L(a[2])); };
  M["Cshr"] = [](const A & a) { pgbn_BigInteger_SHRAssignWithI64(C[N(a[1])], L(a[2])); };
  M["Ccmp"] = [](const A & a) { PN(sg(pgbn_BigInteger_Cmp(C[N(a[1])], C[N(a[2])]))); };
  M["Ccmpi"] = [](const A & a) { PN(sg(pgbn_BigInteger_CmpWithI64(C[N(a[1])], L(a[2])))); };
  M["Cd"] = [](const A & a) { for (size_t i = 1; i < a.size(); i++) { auto * x = C[N(a[i])]; string buf(4096, 0); size_t n = pgbn_BigInteger_GetMagData(x, &buf[0], buf.size()); char t[64];
    snprintf(t, 64, "%d:%zu:", (pgbn_BigInteger_IsZero(x) ? 1 : 0) | (pgbn_BigInteger_IsPositive(x) ? 2 : 0) | (pgbn_BigInteger_IsNegative(x) ? 4 : 0), (n + 3) / 4); string r = t;
    for (size_t k = (n + 3) / 4 * 4; k-- > 0;) { snprintf(t, 64, "%02x", (unsigned)(unsigned char)buf[k]); r += t; } P(r); } };
  M["CS"] = [](const A & a) { string s = unhex(a[1]); auto * p = pgbn_String_Create(s.c_str()); P(hex(pgbn_String_CStr(p))); PN(pgbn_String_Length(p)); pgbn_String_Destroy(p); };
  M["Cdn"] = [](const A & a) { pgbn_BigInteger_Destroy(C[N(a[1])]); C[N(a[1])] = pgbn_BigInteger_Create(); };
#endif
#ifdef D_STATUS
#include "drv_status.inc"
#endif
}
static int run(istream & in) {
  string line;
  while (getline(in, line)) {
    if (line.empty()) continue;
    istringstream ss(line); A a; string t; while (ss >> t) a.push_back(t);
    if (a[0] == "#") { if (a.size() > 1) fprintf(stdout, "# %s\n", a[1].c_str()); else puts("#"); fflush(stdout); if (a.size() > 1 && a[1] != "+") for (auto & f : RESET) f(); continue; } // case boundary
    auto it = M.find(a[0]); O.clear();
    if (it == M.end()) { fprintf(stderr, "unknown command %s\n", a[0].c_str()); return 3; }
    it->second(a);
    fputs(O.empty() ? "." : O.c_str(), stdout); fputc('\n', stdout);
  }
  fflush(stdout);
  return 0;
}
int main(int argc, char ** argv) {
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  ifstream in(argv[1]);
#ifdef D_STATUS
  regs(); RESET.clear();
  auto one = [](const string & text) { // a case of its own process: what is registered is process state
    fflush(stdout); pid_t p = fork(); if (p == 0) { istringstream s(text); int r = run(s); fflush(stdout); _exit(r); }
    int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  };
  string line, cur; int r = 0;
  while (getline(in, line)) {
    if (line.compare(0, 2, "# ") == 0 && line != "# +" && !cur.empty()) { if ((r = one(cur))) return r; cur.clear(); }
    cur += line; cur += '\n';
  }
  return cur.empty() ? 0 : one(cur);
#else
  Status::getInstance();
  Status::registe(1u, "div by zero", [] {}); // the default callback ends the process
  regs(); for (auto & f : RESET) f();
  return run(in);
#endif
}
