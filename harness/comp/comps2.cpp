// Components that need the whole library (value conversions, message codecs, handles).
#include "util.hpp"
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/application_api/ValueFederate.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/core-exceptions.hpp"
#include "helics/core/ActionMessage.hpp"
#include "helics/core/Core.hpp"
#include <algorithm>
#include <cmath>
#include <complex>
using namespace helics;
static long long q4(double v)
{
    if (std::isnan(v)) return 999999998;
    double x = v * 4.0;
    if (std::abs(x) > 9e8 || x != std::floor(x)) return 999999997;
    return (long long)x;
}
static std::string hx(const void* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n; ++i) { auto c = ((const unsigned char*)p)[i]; r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
static std::string unhx(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
static std::vector<double> quarters(const json& n)
{
    std::vector<double> r;
    for (auto& x : n) r.push_back(x.get<long long>() == 999999998 ? std::nan("0") : x.get<long long>() / 4.0);
    return r;
}
static std::vector<std::complex<double>> cplx(const std::vector<double>& v)
{
    std::vector<std::complex<double>> r;
    for (size_t i = 0; i + 1 < v.size(); i += 2) r.emplace_back(v[i], v[i + 1]);
    return r;
}
static void pubVal(Publication& p, const json& x)
{
    auto k = x.at("k").get<std::string>();
    auto& n = x.at("n");
    auto v = quarters(n);
    if (k == "d") p.publish(v[0]);
    else if (k == "i") p.publish(n[0].get<int64_t>());
    else if (k == "c") p.publish(std::complex<double>(v[0], v[1]));
    else if (k == "v") p.publish(v);
    else if (k == "cv") p.publish(cplx(v));
    else if (k == "np") p.publish(NamedPoint(x.at("s").get<std::string>(), v[0]));
    else if (k == "b") p.publish(n[0].get<int>() != 0);
    else if (k == "s") p.publish(x.at("s").get<std::string>());
    else if (k == "t") p.publish(Time(v[0]));
}
static json readVal(Input& in, const std::string& y)
{
    json n = json::array();
    std::string s;
    if (y == "d") n.push_back(q4(in.getValue<double>()));
    else if (y == "i") { auto v = in.getValue<int64_t>(); n.push_back(std::abs(v) < 2100000000LL ? (long long)v : 999999997LL); }
    else if (y == "c") { auto v = in.getValue<std::complex<double>>(); n.push_back(q4(v.real())); n.push_back(q4(v.imag())); }
    else if (y == "v") { for (auto d : in.getValue<std::vector<double>>()) n.push_back(q4(d)); }
    else if (y == "cv") { for (auto& c : in.getValue<std::vector<std::complex<double>>>()) { n.push_back(q4(c.real())); n.push_back(q4(c.imag())); } }
    else if (y == "np") { auto v = in.getValue<NamedPoint>(); s = v.name; n.push_back(q4(v.value)); }
    else if (y == "b") n.push_back(in.getValue<bool>() ? 1 : 0);
    else if (y == "s") s = in.getValue<std::string>();
    else if (y == "t") { auto t = in.getValue<Time>().getBaseTimeCode(); n.push_back(t % 250000000 == 0 ? t / 250000000 : 999999997LL); }
    return json{{"n", n}, {"s", s}};
}
static std::vector<double> dbls(const std::string& b)
{
    std::vector<double> v(b.size() / 8);
    memcpy(v.data(), b.data(), v.size() * 8);
    return v;
}
static void conv(const json& run, Rec& rec)
{
    FederateInfo fi(CoreType::TEST);
    auto nm = "cv" + std::to_string(getpid());
    fi.coreName = nm + "_core";
    fi.coreInitString = "-f 1 --autobroker --log_level=no_print";
    auto fed = std::make_unique<ValueFederate>("f", fi);
    std::map<std::string, Publication*> P;
    std::map<std::string, Input*> I;
    for (auto& op : run["ops"]) {
        auto p = op.at("p").get<std::string>();
        if (P.count(p)) continue;
        P[p] = &fed->registerGlobalPublication("p_" + p, p);
        I[p] = &fed->registerSubscription("p_" + p);
    }
    fed->enterExecutingMode();
    Time t = timeZero;
    for (auto& op : run["ops"]) {
        auto o = op.at("o").get<std::string>();
        auto p = op.at("p").get<std::string>();
        json e = op;
        e["k"] = "op";
        auto& in = *I.at(p);
        t += 1.0;
        if (o == "conv") {
            pubVal(*P.at(p), op.at("x"));
            fed->requestTime(t);
            e["r"] = readVal(in, op.at("y"));
        } else {
            auto k = op.at("x").get<std::string>();
            auto b = unhx(op.at("hin"));
            std::string out;
            if (k == "s") { P.at(p)->publish(b); fed->requestTime(t); out = in.getValue<std::string>(); }
            else if (k == "d") { P.at(p)->publish(dbls(b)[0]); fed->requestTime(t); auto v = in.getValue<double>(); out.assign((char*)&v, 8); }
            else if (k == "i") { int64_t v; memcpy(&v, b.data(), 8); P.at(p)->publish(v); fed->requestTime(t); v = in.getValue<int64_t>(); out.assign((char*)&v, 8); }
            else if (k == "t") { int64_t v; memcpy(&v, b.data(), 8); Time x; x.setBaseTimeCode(v); P.at(p)->publish(x); fed->requestTime(t); v = in.getValue<Time>().getBaseTimeCode(); out.assign((char*)&v, 8); }
            else if (k == "v") { P.at(p)->publish(dbls(b)); fed->requestTime(t); auto v = in.getValue<std::vector<double>>(); out.assign((char*)v.data(), v.size() * 8); }
            else if (k == "c") { auto v = dbls(b); P.at(p)->publish(std::complex<double>(v[0], v[1])); fed->requestTime(t); auto c = in.getValue<std::complex<double>>(); out.assign((char*)&c, 16); }
            else if (k == "cv") { P.at(p)->publish(cplx(dbls(b))); fed->requestTime(t); auto c = in.getValue<std::vector<std::complex<double>>>(); out.assign((char*)c.data(), c.size() * 16); }
            else if (k == "np") { auto v = dbls(b.substr(0, 8)); P.at(p)->publish(NamedPoint(b.substr(8), v[0])); fed->requestTime(t); auto r = in.getValue<NamedPoint>(); out.assign((char*)&r.value, 8); out += r.name; }
            e["hout"] = hx(out.data(), out.size());
        }
        rec(e);
    }
    fed->finalize();
    fed.reset();
}

// ---- message codec -------------------------------------------------------------------------------
static ActionMessage mk(const json& m)
{
    ActionMessage c;
    auto a = m.at("a").get<int>();
    c.setAction(a == -1 ? CMD_TIME_REQUEST : static_cast<action_message_def::action_t>(a));
    auto L = [&](const char* k) { return std::stoll(m.at(k).get<std::string>()); };
    c.messageID = int32_t(L("id"));
    c.source_id = GlobalFederateId(int32_t(L("s")));
    c.source_handle = InterfaceHandle(int32_t(L("sh")));
    c.dest_id = GlobalFederateId(int32_t(L("d")));
    c.dest_handle = InterfaceHandle(int32_t(L("dh")));
    c.counter = uint16_t(L("c"));
    c.flags = uint16_t(L("f"));
    c.sequenceID = uint32_t(L("q"));
    c.actionTime.setBaseTimeCode(L("t"));
    if (a == -1) {
        c.Te.setBaseTimeCode(L("te"));
        c.Tdemin.setBaseTimeCode(L("td"));
        c.Tso.setBaseTimeCode(L("ts"));
    }
    auto pl = unhx(m.at("p"));
    if (m.contains("pn") && m["pn"].get<int>() > 0) { // large payload: p repeated
        std::string big;
        size_t n = m["pn"].get<int>();
        big.reserve(n);
        while (big.size() < n) big += pl.empty() ? std::string(1, 'x') : pl;
        big.resize(n);
        pl = big;
    }
    c.payload = pl;
    int i = 0;
    for (auto& g : m.at("g")) c.setString(i++, unhx(g));
    return c;
}
static std::string hxs(std::string_view v)
{
    if (v.size() <= 4096) return hx(v.data(), v.size());
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char ch : v) h = (h ^ ch) * 1099511628211ULL;
    return "#" + std::to_string(v.size()) + ":" + std::to_string(h);
}
static json um(const ActionMessage& c)
{
    json m;
    bool tr = c.action() == CMD_TIME_REQUEST;
    m["a"] = tr ? -1 : int(c.action());
    auto S = [](long long v) { return std::to_string(v); };
    m["id"] = S(c.messageID);
    m["s"] = S(c.source_id.baseValue());
    m["sh"] = S(c.source_handle.baseValue());
    m["d"] = S(c.dest_id.baseValue());
    m["dh"] = S(c.dest_handle.baseValue());
    m["c"] = S(c.counter);
    m["f"] = S(c.flags);
    m["q"] = S(c.sequenceID);
    m["t"] = S(c.actionTime.getBaseTimeCode());
    m["te"] = S(tr ? c.Te.getBaseTimeCode() : 0);
    m["td"] = S(tr ? c.Tdemin.getBaseTimeCode() : 0);
    m["ts"] = S(tr ? c.Tso.getBaseTimeCode() : 0);
    m["p"] = hxs(c.payload.to_string());
    json g = json::array();
    for (auto& x : c.getStringData()) g.push_back(hxs(x));
    m["g"] = g;
    return m;
}
// what a machine of the other byte order sends for the same command
static std::string swapped(const ActionMessage& c)
{
    auto vv = c.to_vector();
    std::string b(vv.begin(), vv.end());
    auto sw = [&](size_t o, size_t n) { std::reverse(b.begin() + o, b.begin() + o + n); };
    size_t pl = (size_t(uint8_t(b[1])) << 16) + (size_t(uint8_t(b[2])) << 8) + uint8_t(b[3]);
    b[0] = b[0] ? 0 : 1;
    size_t o = 4;
    for (int i = 0; i < 6; ++i) { sw(o, 4); o += 4; }
    sw(o, 2); o += 2;
    sw(o, 2); o += 2;
    sw(o, 4); o += 4;
    sw(o, 8); o += 8;
    if (c.action() == CMD_TIME_REQUEST) { for (int i = 0; i < 3; ++i) { sw(o, 8); o += 8; } return b; }
    o += pl;
    int n = uint8_t(b[o++]);
    for (int i = 0; i < n; ++i) { uint32_t z; memcpy(&z, b.data() + o, 4); sw(o, 4); o += 4 + z; }
    return b;
}
static std::string enc(const ActionMessage& c, const std::string& how, bool dirty)
{
    std::string r;
    if (how == "str") { if (!dirty) return c.to_string(); r = std::string(37, '\x7e'); c.to_string(r); return r; }
    if (how == "vec") { if (!dirty) { auto v = c.to_vector(); return std::string(v.begin(), v.end()); }
        std::vector<char> v(5000, 'q'); c.to_vector(v); return std::string(v.begin(), v.end()); }
    if (how == "json") return c.to_json_string();
    if (how == "pkt") { if (!dirty) return c.packetize(); r = std::string(2000, 'z'); c.packetize(r); return r; }
    if (how == "pktj") return c.packetize_json();
    if (how == "swap") return swapped(c);
    if (how == "arr") { r.assign(c.serializedByteCount(), '\x55'); auto n = c.toByteArray(reinterpret_cast<std::byte*>(r.data()), r.size()); r.resize(n < 0 ? 0 : n); return r; }
    if (how == "arrx") { auto z = c.serializedByteCount(); r.assign(z + 300, '\x55'); auto n = c.toByteArray(reinterpret_cast<std::byte*>(r.data()), r.size()); r.resize(n < 0 ? 0 : n); return r; }
    return r;
}
static size_t dec(ActionMessage& c, const std::string& b, const std::string& how, const std::string& via)
{
    if (b.empty()) return c.from_string(b);
    if (how == "pkt" || how == "pktj") { if (via == "str") return c.from_string(b); return c.depacketize(b.data(), b.size()); }
    if (how == "json") return via == "str" ? c.from_string(b) : (c.from_json_string(b) ? b.size() : 0);
    if (via == "vec") return c.from_vector(std::vector<char>(b.begin(), b.end()));
    if (via == "arr" && b[0] != '{') return c.fromByteArray(reinterpret_cast<const std::byte*>(b.data()), b.size());
    return c.from_string(b);
}
static void codec(const json& run, Rec& rec)
{
    std::string stream;
    ActionMessage multi(CMD_MULTI_MESSAGE);
    ActionMessage keep;
    std::string rx;
    size_t sent = 0;
    for (auto& op : run["ops"]) {
        auto o = op.at("o").get<std::string>();
        json e = op;
        e["k"] = "op";
        if (o == "send") {
            auto c = mk(op.at("m"));
            e["m"] = um(c);
            auto p = enc(c, op.at("how"), false);
            e["n"] = int(p.size());
            stream += p;
        } else if (o == "deliver") {
            size_t n = op.at("b").get<size_t>();
            if (n > stream.size() - sent) n = stream.size() - sent;
            rx += stream.substr(sent, n);
            sent += n;
            e["b"] = int(n);
            json got = json::array(), used = json::array();
            size_t at = 0;
            while (at < rx.size()) {
                ActionMessage c;
                auto u = c.depacketize(rx.data() + at, rx.size() - at);
                if (u == 0) break;
                got.push_back(um(c));
                used.push_back(int(u));
                at += u;
            }
            rx.erase(0, at);
            e["got"] = got;
            e["used"] = used;
        } else if (o == "rt") {
            auto c = mk(op.at("m"));
            e["m"] = um(c);
            auto how = op.at("how").get<std::string>();
            auto b = enc(c, how, op.at("dirty"));
            e["n"] = int(b.size());
            e["zc"] = int(c.serializedByteCount());
            ActionMessage fresh;
            ActionMessage& t = op.at("keep").get<bool>() ? keep : fresh;
            e["js"] = b[0] == '{';
            if (b[0] != '{') b += unhx(op.at("tail"));
            e["used"] = int(dec(t, b, how, op.at("via")));
            e["got"] = um(t);
        } else if (o == "cut") {
            auto c = mk(op.at("m"));
            auto how = op.at("how").get<std::string>();
            auto b = enc(c, how, false);
            json us = json::array();
            for (auto& f : op.at("at")) {
                size_t z = size_t(f.get<double>() * (b.size() - 1));
                auto h = std::make_unique<char[]>(z + 1);
                memcpy(h.get(), b.data(), z);
                ActionMessage t;
                us.push_back(int(dec(t, std::string(h.get(), z), how, op.at("via"))));
            }
            e["used"] = us;
            e["m"] = um(c);
        } else if (o == "small") {
            auto c = mk(op.at("m"));
            e["m"] = um(c);
            auto z = c.serializedByteCount();
            size_t cap = size_t(op.at("f").get<double>() * (z - 1));
            std::string r(z + 64, '\x5a');
            auto n = c.toByteArray(reinterpret_cast<std::byte*>(r.data()), cap);
            e["r"] = n;
            bool clean = true;
            for (size_t i = cap; i < r.size(); ++i) clean = clean && r[i] == '\x5a';
            e["clean"] = clean;
        } else if (o == "msg") {
            auto& m = op.at("m");
            auto msg = std::make_unique<Message>();
            msg->data = unhx(m.at("p"));
            msg->dest = unhx(m.at("g")[0]);
            msg->source = unhx(m.at("g")[1]);
            msg->original_source = unhx(m.at("g")[2]);
            msg->original_dest = unhx(m.at("g")[3]);
            msg->time.setBaseTimeCode(std::stoll(m.at("t").get<std::string>()));
            msg->messageID = int32_t(std::stoll(m.at("id").get<std::string>()));
            msg->flags = uint16_t(std::stoll(m.at("f").get<std::string>()));
            ActionMessage c;
            if (op.at("ctor").get<bool>()) c = ActionMessage(std::move(msg));
            else { c = keep; c = std::move(msg); }
            auto b = c.packetize();
            ActionMessage t;
            t.depacketize(b.data(), b.size());
            auto r = op.at("mv").get<bool>() ? createMessageFromCommand(std::move(t)) : createMessageFromCommand(t);
            e["got"] = json{{"p", hxs(r->data.to_string())}, {"g", {hxs(r->dest), hxs(r->source), hxs(r->original_source), hxs(r->original_dest)}},
                            {"t", std::to_string(r->time.getBaseTimeCode())}, {"id", std::to_string(r->messageID)}, {"f", std::to_string(r->flags)}};
        } else if (o == "pack") {
            auto c = mk(op.at("m"));
            e["m"] = um(c);
            e["r"] = appendMessage(multi, c);
        } else if (o == "unpack") {
            auto b = multi.packetize();
            ActionMessage t;
            t.depacketize(b.data(), b.size());
            json got = json::array();
            for (int i = 0; i < int(t.counter); ++i) {
                ActionMessage c;
                c.from_string(t.getString(i));
                got.push_back(um(c));
            }
            e["got"] = got;
            multi = ActionMessage(CMD_MULTI_MESSAGE);
        } else if (o == "copy") {
            auto c = mk(op.at("m"));
            e["m"] = um(c);
            auto y = op.at("y").get<std::string>();
            if (y == "cc") { ActionMessage t(c); keep = t; e["src"] = um(c); }
            else if (y == "ca") { keep = c; e["src"] = um(c); }
            else if (y == "mc") { ActionMessage t(std::move(c)); keep = std::move(t); e["src"] = e["m"]; }
            else { keep = std::move(c); e["src"] = e["m"]; }
            e["got"] = um(keep);
        }
        rec(e);
    }
}

int main(int argc, char** argv)
{
    return compMain(argc, argv, {{"conv", conv}, {"codec", codec}});
}
