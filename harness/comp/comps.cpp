// Replays operation sequences on SmallBuffer, UnknownHandleManager and ProfilerBuffer; built with AddressSanitizer.
#include "util.hpp"
#include "helics/core/ProfilerBuffer.hpp"
#include "helics/core/SmallBuffer.hpp"
#include "helics/core/UnknownHandleManager.hpp"
#include "helics/core/flagOperations.hpp"
#include <algorithm>
#include <array>
#include <filesystem>
#include <memory>
#include <optional>
using namespace helics;

// ---------------------------------------------------------------- SmallBuffer
static constexpr int REG = 3, REGN = 160;
static void buf(const json& run, Rec& rec)
{
    static std::array<std::array<unsigned char, REGN>, REG> reg;
    for (int k = 0; k < REG; ++k) for (int i = 0; i < REGN; ++i) reg[k][i] = (unsigned char)(200 + k);
    std::vector<std::unique_ptr<SmallBuffer>> b;
    for (int i = 0; i < 3; ++i) b.push_back(std::make_unique<SmallBuffer>());
    auto regOf = [&](const void* p) { for (int k = 0; k < REG; ++k) if (p == reg[k].data()) return k + 1; return 0; };
    auto content = [](const SmallBuffer& x) { json a = json::array(); for (size_t i = 0; i < x.size(); ++i) a.push_back((int)std::to_integer<unsigned>(x.at(i))); return a; };
    auto obs = [&](json& e) {
        json o = json::array();
        for (auto& x : b) {
            auto& y = *x;
            std::string s(y.to_string());
            bool same = s.size() == y.size() && (size_t)(y.end() - y.begin()) == y.size();
            for (size_t i = 0; same && i < y.size(); ++i) same = (unsigned char)s[i] == std::to_integer<unsigned char>(y[i]) && y.begin()[i] == y.data()[i] && y.char_data()[i] == s[i];
            o.push_back({{"c", content(y)}, {"cap", y.capacity()}, {"lk", y.isLocked() ? 1 : 0}, {"er", y.errorState()}, {"em", y.empty() ? 1 : 0}, {"reg", regOf(y.data())}, {"same", same ? 1 : 0}});
        }
        e["b"] = o;
        json eq = json::array();
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { bool q = *b[i] == *b[j]; bool n = *b[i] != *b[j]; eq.push_back(q == n ? 2 : (q ? 1 : 0)); }
        e["eq"] = eq;
    };
    for (auto& op : run["ops"]) {
        auto o = op.at("o").get<std::string>();
        int i = op.value("i", 1) - 1, j = op.value("j", 1) - 1;
        json e = op;
        e["k"] = "op";
        std::string s;
        if (op.contains("d")) for (auto& x : op["d"]) s.push_back((char)x.get<int>());
        std::unique_ptr<char[]> exact(new char[s.size() ? s.size() : 1]);   // exact size, so that ASan sees overreads
        std::memcpy(exact.get(), s.data(), s.size());
        const char* p = exact.get();
        int n = op.value("n", 0);
        int v = op.value("v", 0);
        std::string ex = "";
        bool skip = false;
        try {
            if (o == "new") b[i] = std::make_unique<SmallBuffer>();
            else if (o == "newS") b[i] = std::make_unique<SmallBuffer>(std::string_view(p, s.size()));
            else if (o == "newD") b[i] = std::make_unique<SmallBuffer>((const void*)p, s.size());
            else if (o == "newN") b[i] = std::make_unique<SmallBuffer>((std::size_t)n);
            else if (o == "newV") b[i] = (v % 2) ? std::make_unique<SmallBuffer>((std::size_t)n, (unsigned char)v) : std::make_unique<SmallBuffer>((std::size_t)n, std::byte(v));
            else if (o == "newC") { if (i == j) skip = true; else b[i] = std::make_unique<SmallBuffer>(*b[j]); }
            else if (o == "newM") { if (i == j || b[j]->isLocked()) skip = true; else b[i] = std::make_unique<SmallBuffer>(std::move(*b[j])); }
            else if (o == "asgC") *b[i] = *b[j];
            else if (o == "asgM") { if (i == j) skip = true; else *b[i] = std::move(*b[j]); }
            else if (o == "asgS") { if (s.size() % 2) *b[i] = std::string(p, s.size()); else *b[i] = std::string_view(p, s.size()); }
            else if (o == "asgSelf") *b[i] = b[i]->to_string();
            else if (o == "setN") b[i]->assign((const void*)p, s.size());
            else if (o == "setE") b[i]->assign((const void*)p, (const void*)(p + s.size()));
            else if (o == "setBad") b[i]->assign((const void*)(p + s.size()), (const void*)p);
            else if (o == "appN") b[i]->append((const void*)p, s.size());
            else if (o == "appE") b[i]->append((const void*)p, (const void*)(p + s.size()));
            else if (o == "appBad") b[i]->append((const void*)(p + s.size()), (const void*)p);
            else if (o == "appS") b[i]->append(std::string_view(p, s.size()));
            else if (o == "push") b[i]->push_back((char)v);
            else if (o == "pop") b[i]->pop_back();
            else if (o == "resize") b[i]->resize((size_t)n);
            else if (o == "resizeV") b[i]->resize((size_t)n, std::byte(v));
            else if (o == "huge") b[i]->reserve((size_t)0x010'0000'0001ULL);
            else if (o == "reserve") b[i]->reserve((size_t)n);
            else if (o == "clear") b[i]->clear();
            else if (o == "at") { e["got"] = -1; const auto& cb = *b[i]; e["got"] = (int)std::to_integer<unsigned>(cb.at(n)); }
            else if (o == "setAt") b[i]->at(n) = std::byte(v);
            else if (o == "idx") { if ((size_t)n >= b[i]->size()) skip = true; else (*b[i])[n] = std::byte(v); }
            else if (o == "nul") { b[i]->null_terminate(); e["z"] = (int)std::to_integer<unsigned>(b[i]->data()[b[i]->size()]); }
            else if (o == "give") {
                auto* m = new std::byte[n];
                std::memset(m, 0, n);
                std::memcpy(m, p, s.size());
                b[i]->moveAssign(m, s.size(), n);
                e["ptr"] = b[i]->data() == m ? 1 : 0;
            }
            else if (o == "span") {
                bool used = false;
                for (auto& x : b) if (x->data() == (std::byte*)reg[j].data()) used = true;
                if (used || n > REGN || (int)s.size() > n) skip = true;
                else {
                    std::memcpy(reg[j].data(), p, s.size());
                    b[i]->spanAssign(reg[j].data(), s.size(), n);
                    e["ptr"] = b[i]->data() == (std::byte*)reg[j].data() ? 1 : 0;
                }
            }
            else if (o == "rel") {
                auto* r = b[i]->release();
                e["rg"] = r == nullptr ? -1 : regOf(r);
                if (r && !regOf(r)) delete[] r;
            }
            else if (o == "swap") { if (b[i]->isLocked() || b[j]->isLocked()) skip = true; else b[i]->swap(*b[j]); }
            else if (o == "lock") b[i]->lock(v != 0);
            else if (o == "peek") { json a = json::array(); for (int q = 0; q < REGN; ++q) a.push_back((int)reg[j][q]); e["r"] = a; }
            else skip = true;
        }
        catch (const std::bad_alloc&) { ex = "bad_alloc"; }
        catch (const std::out_of_range&) { ex = "out_of_range"; }
        catch (const std::invalid_argument&) { ex = "invalid_argument"; }
        catch (const std::exception&) { ex = "other"; }
        if (skip) continue;
        e["ex"] = ex;
        obs(e);
        rec(e);
    }
    b.clear();
}

// ---------------------------------------------------------------- UnknownHandleManager
static GlobalHandle gh(const json& t) { return GlobalHandle(GlobalFederateId(t[0].get<int>()), InterfaceHandle(t[1].get<int>())); }
static uint16_t flagsOf(int f)   // bit 0 optional, bit 1 required, bit 2 something else
{
    uint16_t r = 0;
    if (f & 1) r |= make_flags(optional_flag);
    if (f & 2) r |= make_flags(required_flag);
    if (f & 4) r |= make_flags(indicator_flag);
    return r;
}
static int flagsBack(uint16_t r) { return ((r & make_flags(optional_flag)) ? 1 : 0) + ((r & make_flags(required_flag)) ? 2 : 0) + ((r & make_flags(indicator_flag)) ? 4 : 0); }
static std::string tname(InterfaceType t) { return std::string(1, (char)t); }
static void uhm(const json& run, Rec& rec)
{
    UnknownHandleManager u;
    auto ti = [](const UnknownHandleManager::TargetInfo& t) { return json{{"f", t.first.fed_id.baseValue()}, {"h", t.first.handle.baseValue()}, {"fl", flagsBack(t.second)}}; };
    auto lst = [&](const std::vector<UnknownHandleManager::TargetInfo>& v) { json a = json::array(); for (auto& t : v) a.push_back(ti(t)); return a; };
    auto ls = [&](const std::vector<std::string>& v) { json a = json::array(); for (auto& t : v) a.push_back(t); return a; };
    for (auto& op : run["ops"]) {
        auto o = op.at("o").get<std::string>();
        auto kd = op.value("kd", "");
        auto key = op.value("key", "");
        json e = op;
        e["k"] = "op";
        if (o == "add" || o == "addR") {
            auto h = gh(op["h"]);
            auto fl = flagsOf(op["fl"].get<int>());
            bool r = o == "addR";
            if (kd == "p") r ? u.addReconnectablePublication(key, h, fl) : u.addUnknownPublication(key, h, fl);
            else if (kd == "i") r ? u.addReconnectableInput(key, h, fl) : u.addUnknownInput(key, h, fl);
            else if (kd == "e") r ? u.addReconnectableEndpoint(key, h, fl) : u.addUnknownEndpoint(key, h, fl);
            else r ? u.addReconnectableFilter(key, h, fl) : u.addUnknownFilter(key, h, fl);
        } else if (o == "link") {
            auto t = op.at("t").get<std::string>();
            if (kd == "d") u.addDataLink(key, t);
            else if (kd == "e") u.addEndpointLink(key, t);
            else if (kd == "s") u.addSourceFilterLink(key, t);
            else u.addDestinationFilterLink(key, t);
        } else if (o == "clear") {
            if (kd == "p") u.clearPublication(key);
            else if (kd == "i") u.clearInput(key);
            else if (kd == "e") u.clearEndpoint(key);
            else u.clearFilter(key);
        } else if (o == "clearFed") u.clearFederateUnknowns(GlobalFederateId(op["fed"].get<int>()));
        else if (o == "clearIf") {
            json calls = json::array();
            u.clearUnknownsIf([&](const std::string& nm, InterfaceType t, UnknownHandleManager::TargetInfo x) {
                json c = ti(x);
                c["key"] = nm;
                c["kd"] = tname(t);
                calls.push_back(c);
                return (kd.empty() || kd == tname(t)) && (key.empty() || nm == key) && (op.value("fed", 0) == 0 || x.first.fed_id.baseValue() == op.value("fed", 0));
            });
            e["calls"] = calls;
        } else continue;
        // everything there is to observe
        json q = json::object();
        for (auto& kk : run["keys"]) {
            auto k = kk.get<std::string>();
            q[k] = {{"p", lst(u.checkForPublications(k))}, {"i", lst(u.checkForInputs(k))}, {"e", lst(u.checkForEndpoints(k))}, {"f", lst(u.checkForFilters(k))},
                    {"rp", lst(u.checkForReconnectionPublications(k))}, {"ri", lst(u.checkForReconnectionInputs(k))}, {"re", lst(u.checkForReconnectionEndpoints(k))}, {"rf", lst(u.checkForReconnectionFilters(k))},
                    {"ld", ls(u.checkForLinks(k))}, {"le", ls(u.checkForEndpointLinks(k))}, {"ls", ls(u.checkForFilterSourceTargets(k))}, {"lt", ls(u.checkForFilterDestTargets(k))}};
        }
        e["q"] = q;
        e["has"] = u.hasUnknowns() ? 1 : 0;
        e["nonopt"] = u.hasNonOptionalUnknowns() ? 1 : 0;
        e["req"] = u.hasRequiredUnknowns() ? 1 : 0;
        auto coll = [&](json& a) { return [&a, &ti](const std::string& nm, InterfaceType t, UnknownHandleManager::TargetInfo x) { json c = ti(x); c["key"] = nm; c["kd"] = tname(t); a.push_back(c); }; };
        json all = json::array(), no = json::array(), rq = json::array(), lk = json::array();
        u.processUnknowns(coll(all));
        u.processNonOptionalUnknowns(coll(no));
        u.processRequiredUnknowns(coll(rq));
        u.processUnknownLinks([&](const std::string& a, InterfaceType x, const std::string& b, InterfaceType y) { lk.push_back({{"key", a}, {"x", tname(x)}, {"t", b}, {"y", tname(y)}}); });
        e["all"] = all;
        e["no"] = no;
        e["rq"] = rq;
        e["lk"] = lk;
        rec(e);
    }
}

// ---------------------------------------------------------------- ProfilerBuffer
static void prof(const json& run, Rec& rec)
{
    char tmpl[] = "/tmp/vprofXXXXXX";
    std::string dir = mkdtemp(tmpl);
    auto path = [&](const std::string& n) { return n.empty() ? n : (n == "bad" ? dir + "/no/such/file" : dir + "/" + n); };
    auto p = std::make_unique<ProfilerBuffer>();
    for (auto& op : run["ops"]) {
        auto o = op.at("o").get<std::string>();
        json e = op;
        e["k"] = "op";
        int ex = 0;
        try {
            if (o == "add") { std::string s = op["s"]; if (op.value("mv", 0)) p->addMessage(std::move(s)); else p->addMessage(s); }
            else if (o == "file") p->setOutputFile(path(op["f"]), op.value("app", 0) != 0);
            else if (o == "write") p->writeFile();
            else if (o == "renew") p = std::make_unique<ProfilerBuffer>();
            else continue;
        }
        catch (const std::ios_base::failure&) { ex = 1; }
        e["ex"] = ex;
        json fs = json::object();
        for (auto& f : run["files"]) {
            auto n = f.get<std::string>();
            std::ifstream in(path(n), std::ios::binary);
            if (!in) { fs[n] = "<none>"; continue; }
            std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
            fs[n] = s;
        }
        e["fs"] = fs;
        rec(e);
    }
    p.reset();
    for (auto& f : run["files"]) std::filesystem::remove(path(f.get<std::string>()));
    std::filesystem::remove(dir);
}

int main(int argc, char** argv)
{
    return compMain(argc, argv, {{"buf", buf}, {"uhm", uhm}, {"prof", prof}});
}
