// Scenario driver: runs a JSON scenario against the real HELICS libraries under the controlled scheduler and
// writes the observable history (API calls, returns, callbacks, data read after each grant) as ndjson.
#include "../sched/sched.hpp"
#include "helics/application_api/BrokerApp.hpp"
#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/CallbackFederate.hpp"
#include "helics/application_api/CoreApp.hpp"
#include "helics/application_api/Endpoints.hpp"
#include "helics/application_api/Filters.hpp"
#include "helics/application_api/FilterOperations.hpp"
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/MessageOperators.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/application_api/Translator.hpp"
#include "helics/application_api/TranslatorOperations.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/Broker.hpp"
#include "helics/core/Core.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/core-exceptions.hpp"
#include "helics/core/coreTypeOperations.hpp"
#include "helics/core/helics_definitions.hpp"
#include <condition_variable>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <nlohmann/json.hpp>
#include <optional>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using nlohmann::json;
using namespace helics;
using oj = nlohmann::ordered_json;

static constexpr int64_t TMAX = 2000000000;
static Time mkTime(int64_t n)
{
    if (n >= TMAX) return Time::maxVal();
    if (n <= -TMAX) return Time::minVal();
    Time t;
    t.setBaseTimeCode(n);
    return t;
}
static int64_t tnum(Time t)
{
    auto c = t.getBaseTimeCode();
    if (c > 1900000000) return TMAX;
    if (c < -1900000000) return -TMAX;
    return c;
}

static std::string logArg()
{
    const char* l = getenv("DRV_LOG");
    return std::string(" --loglevel=") + (l ? l : "no_print");
}
static std::string g_out;
static int g_fd = -1;
static void emit(const oj& e)
{
    g_out += e.dump(-1, ' ', true, nlohmann::json::error_handler_t::replace);
    g_out += '\n';
}
static void flushOut()
{
    size_t off = 0;
    while (off < g_out.size()) {
        auto n = ::write(g_fd, g_out.data() + off, g_out.size() - off);
        if (n <= 0) break;
        off += size_t(n);
    }
    g_out.clear();
}
static void onStuck(const char* kind, const std::string& detail)
{
    emit({{"k", "stuck"}, {"kind", kind}, {"detail", detail}});
    flushOut();
    _exit(0);
}
static void onCrash(int sig)
{
    emit({{"k", "crash"}, {"sig", sig}});
    flushOut();
    _exit(0);
}

struct Fed {
    std::string name;
    std::unique_ptr<CombinationFederate> fed;
    CallbackFederate* cfed{nullptr};
    bool doDump{true};
    bool dumpRead{true};
    std::vector<std::string> ins, eps;
};
struct World {
    std::map<std::string, std::shared_ptr<Broker>> brokers;
    std::map<std::string, std::shared_ptr<Core>> cores;
    std::map<std::string, Fed> feds;
    std::map<std::string, Publication*> pubs;
    std::map<std::string, Input*> inputs;
    std::map<std::string, std::string> vtype;
    std::map<std::string, Endpoint*> eps;
    std::map<std::string, Filter*> filters;
    std::map<std::string, Translator*> trans;
    std::vector<std::unique_ptr<Filter>> ownFilters;
    std::map<int, bool> signals;
    std::map<std::string, QueryId> queries;
    std::mutex m;
    std::condition_variable cv;
};
static World* W{nullptr};

static const std::map<std::string, int> flagNames{
    {"observer", defs::OBSERVER}, {"uninterruptible", defs::UNINTERRUPTIBLE}, {"interruptible", defs::INTERRUPTIBLE},
    {"terminate_on_error", defs::TERMINATE_ON_ERROR}, {"source_only", defs::SOURCE_ONLY},
    {"only_transmit_on_change", defs::ONLY_TRANSMIT_ON_CHANGE}, {"only_update_on_change", defs::ONLY_UPDATE_ON_CHANGE},
    {"wait", defs::WAIT_FOR_CURRENT_TIME_UPDATE}, {"restrictive", defs::RESTRICTIVE_TIME_POLICY},
    {"connections_required", defs::CONNECTIONS_REQUIRED}, {"connections_optional", defs::CONNECTIONS_OPTIONAL},
    {"strict_type", defs::STRICT_INPUT_TYPE_CHECKING}, {"event_triggered", defs::EVENT_TRIGGERED},
    {"reentrant", defs::REENTRANT}, {"slow_responding", defs::SLOW_RESPONDING}, {"single_thread", defs::SINGLE_THREAD_FEDERATE},
    {"ignore_time_mismatch", defs::IGNORE_TIME_MISMATCH_WARNINGS}, {"ignore_unit_mismatch", defs::IGNORE_INPUT_UNIT_MISMATCH},
    {"json", defs::USE_JSON_SERIALIZATION}, {"delay_init", defs::DELAY_INIT_ENTRY}, {"enable_init", defs::ENABLE_INIT_ENTRY},
    {"profiling", defs::PROFILING}, {"debugging", defs::DEBUGGING}, {"forward_compute", defs::FORWARD_COMPUTE},
    {"rollback", defs::ROLLBACK}, {"callback", defs::CALLBACK_FEDERATE}, {"realtime", defs::REALTIME},
    {"automated_time_request", defs::AUTOMATED_TIME_REQUEST}, {"disable_remote", defs::DISABLE_REMOTE_CONTROL},
    {"allow_remote", defs::ALLOW_REMOTE_CONTROL}, {"dumplog", defs::DUMPLOG}};
static const std::map<std::string, int> timeProps{
    {"time_delta", defs::TIME_DELTA}, {"period", defs::PERIOD}, {"offset", defs::OFFSET}, {"input_delay", defs::INPUT_DELAY},
    {"output_delay", defs::OUTPUT_DELAY}, {"stoptime", defs::STOPTIME}, {"grant_timeout", defs::GRANT_TIMEOUT},
    {"rt_lag", defs::RT_LAG}, {"rt_lead", defs::RT_LEAD}};
static const std::map<std::string, int> intProps{{"max_iterations", defs::MAX_ITERATIONS}, {"log_level", defs::LOG_LEVEL},
    {"index_group", defs::INDEX_GROUP}, {"current_iteration", defs::CURRENT_ITERATION}};
static const std::map<std::string, int> optNames{
    {"required", defs::CONNECTION_REQUIRED}, {"optional", defs::CONNECTION_OPTIONAL}, {"single", defs::SINGLE_CONNECTION_ONLY},
    {"multiple", defs::MULTIPLE_CONNECTIONS_ALLOWED}, {"only_transmit_on_change", defs::HANDLE_ONLY_TRANSMIT_ON_CHANGE},
    {"only_update_on_change", defs::HANDLE_ONLY_UPDATE_ON_CHANGE}, {"buffer_data", defs::BUFFER_DATA},
    {"reconnectable", defs::RECONNECTABLE}, {"receive_only", defs::RECEIVE_ONLY}, {"source_only", defs::SEND_ONLY},
    {"ignore_interrupts", defs::IGNORE_INTERRUPTS}, {"strict_type", defs::STRICT_TYPE_CHECKING},
    {"ignore_unit", defs::IGNORE_UNIT_MISMATCH}, {"multi_input", defs::MULTI_INPUT_HANDLING_METHOD},
    {"priority", defs::INPUT_PRIORITY_LOCATION}, {"clear_priority", defs::CLEAR_PRIORITY_LIST},
    {"connections", defs::CONNECTIONS}, {"time_restricted", defs::TIME_RESTRICTED}};

static std::string num(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
static oj readValue(Input& in, const std::string& vt)
{
    if (vt == "int") return in.getValue<int64_t>();
    if (vt == "double") return num(in.getValue<double>());
    if (vt == "dint") { double d = in.getValue<double>(); if (d == double(int64_t(d)) && std::abs(d) < 1e9) return int64_t(d); return num(d); }
    if (vt == "string") return in.getValue<std::string>();
    if (vt == "bool") return in.getValue<bool>() ? 1 : 0;
    if (vt == "complex") { auto c = in.getValue<std::complex<double>>(); return num(c.real()) + "," + num(c.imag()); }
    if (vt == "vector") { auto v = in.getValue<std::vector<double>>(); std::string s; for (auto x : v) s += num(x) + ";"; return s; }
    if (vt == "cvector") { auto v = in.getValue<std::vector<std::complex<double>>>(); std::string s; for (auto& x : v) s += num(x.real()) + "," + num(x.imag()) + ";"; return s; }
    if (vt == "point") { auto p = in.getValue<NamedPoint>(); return p.name + "=" + num(p.value); }
    if (vt == "time") return tnum(in.getValue<Time>());
    if (vt == "char") return std::string(1, in.getValue<char>());
    if (vt == "raw") { auto b = in.getBytes(); std::string s; static const char* h = "0123456789abcdef"; for (auto c : b.string_view()) { s += h[(unsigned char)c >> 4]; s += h[c & 15]; } return s; }
    return in.getValue<std::string>();
}
static void publishValue(Publication& p, const std::string& vt, const json& v)
{
    if (vt == "int") p.publish(v.get<int64_t>());
    else if (vt == "double" || vt == "dint") p.publish(v.get<double>());
    else if (vt == "string") p.publish(v.get<std::string>());
    else if (vt == "bool") p.publish(v.is_boolean() ? v.get<bool>() : v.get<int>() != 0);
    else if (vt == "complex") p.publish(std::complex<double>(v[0].get<double>(), v[1].get<double>()));
    else if (vt == "vector") p.publish(v.get<std::vector<double>>());
    else if (vt == "cvector") { std::vector<std::complex<double>> c; for (auto& x : v) c.emplace_back(x[0].get<double>(), x[1].get<double>()); p.publish(c); }
    else if (vt == "point") p.publish(NamedPoint(v[0].get<std::string>(), v[1].get<double>()));
    else if (vt == "time") p.publish(mkTime(v.get<int64_t>()));
    else if (vt == "char") p.publish(v.get<std::string>()[0]);
    else if (vt == "raw") { auto s = v.get<std::string>(); throw std::runtime_error("raw"); }
    else p.publish(v.get<std::string>());
}
static oj msgJson(const Message& m)
{
    return {{"t", tnum(m.time)}, {"s", m.source}, {"d", m.dest}, {"os", m.original_source}, {"od", m.original_dest},
            {"p", std::string(m.data.to_string())}, {"id", m.messageID}, {"fl", int(m.flags)}};
}
static void dump(Fed& f, bool force = false)
{
    if (!f.doDump && !force) return;
    oj in = oj::array(), ep = oj::array();
    for (auto& id : f.ins) {
        auto& i = *W->inputs[id];
        oj e{{"id", id}};
        e["u"] = i.isUpdated() ? 1 : 0;
        e["lt"] = tnum(i.getLastUpdate());
        if (f.dumpRead) {
            try { e["v"] = readValue(i, W->vtype[id]); }
            catch (const std::exception& ex) { e["v"] = std::string("EXC:") + ex.what(); }
            e["u2"] = i.isUpdated() ? 1 : 0;
        }
        in.push_back(e);
    }
    for (auto& id : f.eps) {
        auto& e = *W->eps[id];
        oj q{{"id", id}, {"n", int64_t(e.pendingMessageCount())}};
        if (f.dumpRead) {
            oj ms = oj::array();
            while (e.hasMessage()) {
                auto m = e.getMessage();
                if (!m) { ms.push_back("null"); break; }
                ms.push_back(msgJson(*m));
            }
            q["m"] = ms;
        }
        ep.push_back(q);
    }
    emit({{"k", "d"}, {"f", f.name}, {"g", tnum(f.fed->getCurrentTime())}, {"in", in}, {"ep", ep}});
}
static std::string modeName(Federate::Modes m) { return std::to_string(int(m)); }

static Interface* findIface(const std::string& id)
{
    if (auto a = W->pubs.find(id); a != W->pubs.end()) return a->second;
    if (auto b = W->inputs.find(id); b != W->inputs.end()) return b->second;
    if (auto c = W->eps.find(id); c != W->eps.end()) return c->second;
    if (auto d = W->filters.find(id); d != W->filters.end()) return d->second;
    if (auto e = W->trans.find(id); e != W->trans.end()) return e->second;
    throw std::runtime_error("scenario: no interface " + id);
}
static HelicsSequencingModes seqMode(const json& op)
{
    auto s = op.value("mode", "");
    return s == "ordered" ? HELICS_SEQUENCING_MODE_ORDERED : (s == "fast" ? HELICS_SEQUENCING_MODE_FAST : HELICS_SEQUENCING_MODE_DEFAULT);
}
static IterationRequest iterReq(const json& op)
{
    int i = op.value("iter", 0);
    return i == 1 ? IterationRequest::FORCE_ITERATION : (i == 2 ? IterationRequest::ITERATE_IF_NEEDED : IterationRequest::NO_ITERATIONS);
}
class DupOperator: public FilterOperator {
    int n_;
    std::string s_;
  public:
    DupOperator(int n, std::string s): n_(n), s_(std::move(s)) {}
    std::unique_ptr<Message> process(std::unique_ptr<Message> m) override { return m; }
    bool isMessageGenerating() const override { return true; }
    std::vector<std::unique_ptr<Message>> processVector(std::unique_ptr<Message> m) override
    {
        std::vector<std::unique_ptr<Message>> r;
        for (int i = 1; i < n_; ++i) {
            auto c = std::make_unique<Message>(*m);
            std::string x(c->data.to_string());
            x += s_ + std::to_string(i);
            c->data = x;
            r.push_back(std::move(c));
        }
        r.insert(r.begin(), std::move(m));
        return r;
    }
};
static std::shared_ptr<FilterOperator> makeOperator(const json& op)
{
    auto kind = op.value("fn", "");
    if (kind == "retime") { auto dt = op.value("dt", 0); return std::make_shared<MessageTimeOperator>([dt](Time t) { return t + mkTime(dt); }); }
    if (kind == "append") { auto s = op.value("s", "+"); return std::make_shared<MessageDataOperator>([s](SmallBuffer& b) { std::string x(b.to_string()); x += s; b = x; }); }
    if (kind == "dropif") { auto s = op.value("s", "X"); return std::make_shared<MessageConditionalOperator>([s](const Message* m) { return m->to_string().find(s) == std::string::npos; }); }
    if (kind == "redest") { auto d = op.value("dest", ""); return std::make_shared<MessageDestOperator>([d](const std::string&, const std::string&) { return d; }); }
    if (kind == "dup") return std::make_shared<DupOperator>(op.value("n", 2), op.value("s", "#"));
    return nullptr;
}

class Actor {
  public:
    std::string name;
    Fed* f{nullptr};
    int n{0};
    int gotCmd{0};
    bool stop{false};
    Core* coreOf(const json& op) { auto it = W->cores.find(op.at("core").get<std::string>()); return it == W->cores.end() ? nullptr : it->second.get(); }
    std::shared_ptr<Broker> brokerOf(const json& op)
    {
        auto it = W->brokers.find(op.at("broker").get<std::string>());
        if (it == W->brokers.end()) throw std::runtime_error("scenario: no broker");
        return it->second;
    }
    void run(const json& prog)
    {
        for (auto& op : prog) {
            if (stop) break;
            exec(op);
        }
    }
    void exec(const json& op)
    {
        auto o = op.at("op").get<std::string>();
        if (o == "loop") {
            // repeat the body until the granted time reaches "until"
            int64_t until = op.at("until");
            int cap = op.value("cap", 400);
            while (!stop && tnum(f->fed->getCurrentTime()) < until && cap-- > 0) run(op.at("body"));
            return;
        }
        if (o == "execLoop") {
            // ask for executing mode with the given iteration requests until it is entered
            for (auto& it : op.at("iters")) {
                json q{{"op", "enterExec"}, {"iter", it}};
                run(json::array({q}));
                if (stop || f->fed->getCurrentMode() == Federate::Modes::EXECUTING) return;
                run(op.at("body"));
            }
            run(json::array({json{{"op", "enterExec"}}}));
            return;
        }
        if (o == "drainCmd") {
            // take commands until n were received in total
            int want = op.at("n");
            while (!stop && gotCmd < want) { int b = gotCmd; run(json::array({json{{"op", "waitCmd"}}})); if (gotCmd == b) break; }
            return;
        }
        if (o == "repeat") { int c = op.at("n"); for (int i = 0; i < c && !stop; ++i) run(op.at("body")); return; }
        if (o == "await") {
            int s = op.at("n");
            std::unique_lock<std::mutex> l(W->m);
            W->cv.wait(l, [s] { return W->signals[s]; });
            return;
        }
        if (o == "signal") {
            std::unique_lock<std::mutex> l(W->m);
            W->signals[op.at("n").get<int>()] = true;
            W->cv.notify_all();
            return;
        }
        if (o == "dump") { dump(*f, true); return; }
        if (o == "sleep") { std::this_thread::sleep_for(std::chrono::milliseconds(op.at("ms").get<int>())); return; }
        // once the end of time was granted the federate is out of the co-simulation
        if (f && f->fed && (o == "pub" || o == "send" || o == "time") && !op.value("evenHalted", false) && tnum(f->fed->getCurrentTime()) >= TMAX) return;
        ++n;
        oj c{{"k", "c"}, {"f", name}, {"n", n}, {"o", o}};
        for (auto it = op.begin(); it != op.end(); ++it) if (it.key() != "op" && it.key() != "quiet") c[it.key()] = it.value();
        if (o == "time" || o == "timeAsync") {
            if (op.contains("dt")) c["t"] = tnum(f->fed->getCurrentTime()) + op["dt"].get<int64_t>();
        }
        if (o == "pub" && op.value("auto", false)) {
            c["v"] = autoVal++;
        }
        c.erase("auto");
        emit(c);
        oj r{{"k", "r"}, {"f", name}, {"n", n}, {"o", o}};
        bool always = false;
        bool dmp = false;
        try {
            always = doOp(o, op, c, r, dmp);
        }
        catch (const InvalidFunctionCall& e) { r["err"] = "InvalidFunctionCall"; r["msg"] = e.what(); }
        catch (const RegistrationFailure& e) { r["err"] = "RegistrationFailure"; r["msg"] = e.what(); }
        catch (const InvalidIdentifier& e) { r["err"] = "InvalidIdentifier"; r["msg"] = e.what(); }
        catch (const InvalidParameter& e) { r["err"] = "InvalidParameter"; r["msg"] = e.what(); }
        catch (const ConnectionFailure& e) { r["err"] = "ConnectionFailure"; r["msg"] = e.what(); }
        catch (const FunctionExecutionFailure& e) { r["err"] = "FunctionExecutionFailure"; r["msg"] = e.what(); }
        catch (const InvalidConversion& e) { r["err"] = "InvalidConversion"; r["msg"] = e.what(); }
        catch (const HelicsException& e) { r["err"] = "HelicsException"; r["msg"] = e.what(); }
        catch (const nlohmann::json::exception& e) { r["err"] = "SCENARIO"; r["msg"] = e.what(); }
        catch (const std::exception& e) { r["err"] = "std"; r["msg"] = e.what(); }
        if (f && f->fed) { r["mode"] = int(f->fed->getCurrentMode()); r["g"] = tnum(f->fed->getCurrentTime()); }
        if (always || r.contains("err")) emit(r);
        if (r.contains("err") && op.value("stopOnErr", false)) stop = true;
        if (dmp && !r.contains("err") && f && f->fed) dump(*f);
    }
    int64_t autoVal{0};

    bool doOp(const std::string& o, const json& op, const oj& c, oj& r, bool& dmp)
    {
        auto S = [&](const char* k) { return op.at(k).get<std::string>(); };
        // --- infrastructure
        if (o == "broker") {
            auto b = BrokerFactory::create(helics::core::coreTypeFromString(op.value("type", "test")), S("name"), op.value("init", "") + logArg());
            W->brokers[S("name")] = b;
            r["conn"] = b->isConnected() ? 1 : 0;
            return true;
        }
        if (o == "core") {
            auto cr = CoreFactory::create(helics::core::coreTypeFromString(op.value("type", "test")), S("name"), op.value("init", "") + logArg());
            W->cores[S("name")] = cr;
            r["conn"] = cr->connect() ? 1 : 0;
            return true;
        }
        if (o == "fed") {
            FederateInfo fi(helics::core::coreTypeFromString(op.value("type", "test")));
            fi.coreName = S("core");
            fi.setProperty(defs::LOG_LEVEL, HELICS_LOG_LEVEL_NO_PRINT);
            if (op.contains("init")) fi.coreInitString = S("init") + logArg();
            if (op.contains("props")) for (auto it = op["props"].begin(); it != op["props"].end(); ++it) {
                if (timeProps.count(it.key())) fi.setProperty(timeProps.at(it.key()), mkTime(it.value().get<int64_t>()));
                else fi.setProperty(intProps.at(it.key()), it.value().get<int>());
            }
            if (op.contains("flags")) for (auto it = op["flags"].begin(); it != op["flags"].end(); ++it) fi.setFlagOption(flagNames.at(it.key()), it.value().get<bool>());
            if (op.contains("sep")) fi.separator = S("sep")[0];
            auto& w = W->feds[name];
            f = &w;
            w.name = name;
            w.doDump = op.value("dump", true);
            w.dumpRead = op.value("dumpRead", true);
            autoVal = op.value("base", 0);
            w.fed = std::make_unique<CombinationFederate>(op.value("as", name), fi);
            r["fid"] = 1;
            return true;
        }
        if (o == "cbs") {
            auto& fd = *f->fed;
            std::string nm = name;
            fd.setInitializingEntryCallback([nm](bool it) { emit({{"k", "cb"}, {"f", nm}, {"cb", "init"}, {"it", it ? 1 : 0}}); });
            fd.setExecutingEntryCallback([nm]() { emit({{"k", "cb"}, {"f", nm}, {"cb", "exec"}}); });
            fd.setTimeRequestEntryCallback([nm](Time a, Time b, bool it) { emit({{"k", "cb"}, {"f", nm}, {"cb", "treq"}, {"a", tnum(a)}, {"b", tnum(b)}, {"it", it ? 1 : 0}}); });
            fd.setTimeUpdateCallback([nm](Time a, bool it) { emit({{"k", "cb"}, {"f", nm}, {"cb", "tupd"}, {"a", tnum(a)}, {"it", it ? 1 : 0}}); });
            fd.setModeUpdateCallback([nm](Federate::Modes a, Federate::Modes b) { emit({{"k", "cb"}, {"f", nm}, {"cb", "mode"}, {"a", int(a)}, {"b", int(b)}}); });
            fd.setTimeRequestReturnCallback([nm](Time a, bool it) { emit({{"k", "cb"}, {"f", nm}, {"cb", "tret"}, {"a", tnum(a)}, {"it", it ? 1 : 0}}); });
            fd.setCosimulationTerminatedCallback([nm]() { emit({{"k", "cb"}, {"f", nm}, {"cb", "term"}}); });
            return false;
        }
        if (o == "incb") {
            auto id = S("id");
            auto nm = name;
            W->inputs.at(id)->registerNotificationCallback([nm, id](Time t) { emit({{"k", "cb"}, {"f", nm}, {"cb", "in"}, {"id", id}, {"a", tnum(t)}}); });
            return false;
        }
        if (o == "epcb") {
            auto id = S("id");
            auto nm = name;
            W->eps.at(id)->setCallback([nm, id](const Endpoint&, Time t) { emit({{"k", "cb"}, {"f", nm}, {"cb", "ep"}, {"id", id}, {"a", tnum(t)}}); });
            return false;
        }
        // --- registration
        if (o == "regPub") {
            auto vt = op.value("vt", "int");
            auto ty = op.value("type", vt == "int" ? "int" : (vt == "dint" ? "double" : vt));
            auto& p = op.value("global", true) ? f->fed->registerGlobalPublication(S("key"), ty, op.value("units", "")) : f->fed->registerPublication(S("key"), ty, op.value("units", ""));
            W->pubs[S("id")] = &p;
            W->vtype[S("id")] = vt;
            r["h"] = p.isValid() ? 1 : 0;
            r["name"] = p.getName();
            return true;
        }
        if (o == "regIn") {
            auto vt = op.value("vt", "int");
            auto ty = op.value("type", vt == "int" ? "int" : (vt == "dint" ? "double" : vt));
            auto& p = op.value("global", true) ? f->fed->registerGlobalInput(S("key"), ty, op.value("units", "")) : f->fed->registerInput(S("key"), ty, op.value("units", ""));
            if (op.contains("default")) {
                if (vt == "int") p.setDefault(op["default"].get<int64_t>());
                else if (vt == "string") p.setDefault(op["default"].get<std::string>());
                else p.setDefault(op["default"].get<double>());
            }
            W->inputs[S("id")] = &p;
            W->vtype[S("id")] = vt;
            f->ins.push_back(S("id"));
            r["h"] = p.isValid() ? 1 : 0;
            r["name"] = p.getName();
            return true;
        }
        if (o == "sub") {
            auto& p = f->fed->registerSubscription(S("target"), op.value("units", ""));
            if (op.contains("default")) p.setDefault(op["default"].get<int64_t>());
            W->inputs[S("id")] = &p;
            W->vtype[S("id")] = op.value("vt", "int");
            f->ins.push_back(S("id"));
            return false;
        }
        if (o == "regEp") {
            bool g = op.value("global", true);
            bool t = op.value("targeted", false);
            auto ty = op.value("type", "");
            Endpoint& e = op.value("sink", false) ? f->fed->registerDataSink(S("key")) :
                t ? (g ? f->fed->registerGlobalTargetedEndpoint(S("key"), ty) : f->fed->registerTargetedEndpoint(S("key"), ty)) :
                    (g ? f->fed->registerGlobalEndpoint(S("key"), ty) : f->fed->registerEndpoint(S("key"), ty));
            W->eps[S("id")] = &e;
            f->eps.push_back(S("id"));
            r["h"] = e.isValid() ? 1 : 0;
            r["name"] = e.getName();
            return true;
        }
        if (o == "filter") {
            auto kind = S("kind");
            Filter* fl = nullptr;
            static const std::map<std::string, FilterTypes> ft{{"custom", FilterTypes::CUSTOM}, {"delay", FilterTypes::DELAY}, {"reroute", FilterTypes::REROUTE},
                {"clone", FilterTypes::CLONE}, {"drop", FilterTypes::RANDOM_DROP}, {"rdelay", FilterTypes::RANDOM_DELAY}, {"firewall", FilterTypes::FIREWALL}};
            if (op.contains("core")) {
                auto cr = W->cores.at(S("core"));
                if (kind == "clone") W->ownFilters.push_back(make_cloning_filter(FilterTypes::CLONE, cr.get(), op.value("deliver", ""), S("key")));
                else if (kind == "custom" && op.value("cloning", false)) W->ownFilters.push_back(std::make_unique<CloningFilter>(cr.get(), S("key")));
                else if (kind == "custom") W->ownFilters.push_back(std::make_unique<Filter>(cr.get(), S("key")));
                else W->ownFilters.push_back(make_filter(ft.at(kind), cr.get(), S("key")));
                fl = W->ownFilters.back().get();
            } else {
                auto vis = op.value("global", true) ? InterfaceVisibility::GLOBAL : InterfaceVisibility::LOCAL;
                if (kind == "clone") fl = &make_cloning_filter(vis, FilterTypes::CLONE, f->fed.get(), op.value("deliver", ""), S("key"));
                else if (kind == "custom" && op.value("cloning", false)) fl = vis == InterfaceVisibility::GLOBAL ? &f->fed->registerGlobalCloningFilter(S("key")) : &f->fed->registerCloningFilter(S("key"));
                else if (kind == "custom") fl = vis == InterfaceVisibility::GLOBAL ? &f->fed->registerGlobalFilter(S("key")) : &f->fed->registerFilter(S("key"));
                else fl = &make_filter(vis, ft.at(kind), f->fed.get(), S("key"));
            }
            W->filters[S("id")] = fl;
            if (op.contains("fn")) fl->setOperator(makeOperator(op));
            if (op.contains("delay")) fl->set("delay", op["delay"].get<double>() * 1e-9);
            if (op.contains("set")) for (auto it = op["set"].begin(); it != op["set"].end(); ++it) {
                if (it.value().is_string()) fl->setString(it.key(), it.value().get<std::string>());
                else fl->set(it.key(), it.value().get<double>());
            }
            r["h"] = fl->isValid() ? 1 : 0;
            return true;
        }
        if (o == "fset") {
            auto* fl = W->filters.at(S("id"));
            if (op.contains("sv")) fl->setString(S("prop"), S("sv"));
            else if (op.contains("tv")) fl->set(S("prop"), op["tv"].get<double>() * 1e-9);
            else fl->set(S("prop"), op.at("v").get<double>());
            return false;
        }
        if (o == "translator") {
            static const std::map<std::string, int> tt{{"custom", HELICS_TRANSLATOR_TYPE_CUSTOM}, {"json", HELICS_TRANSLATOR_TYPE_JSON}, {"binary", HELICS_TRANSLATOR_TYPE_BINARY}};
            auto& t = op.value("global", true) ? f->fed->registerGlobalTranslator(tt.at(S("kind")), S("key"), op.value("etype", ""), op.value("units", "")) :
                                                 f->fed->registerTranslator(tt.at(S("kind")), S("key"), op.value("etype", ""), op.value("units", ""));
            W->trans[S("id")] = &t;
            r["h"] = t.isValid() ? 1 : 0;
            return true;
        }
        if (o == "src") { findIface(S("id"))->addSourceTarget(S("t"), op.contains("hint") ? InterfaceType(S("hint")[0]) : InterfaceType::UNKNOWN); return false; }
        if (o == "dst") { findIface(S("id"))->addDestinationTarget(S("t"), op.contains("hint") ? InterfaceType(S("hint")[0]) : InterfaceType::UNKNOWN); return false; }
        if (o == "rmTarget") { findIface(S("id"))->removeTarget(S("t")); return false; }
        if (o == "ialias") { findIface(S("id"))->addAlias(S("a")); return false; }
        if (o == "close") { findIface(S("id"))->close(); return false; }
        if (o == "opt") { findIface(S("id"))->setOption(optNames.at(S("o2")), op.value("v", 1)); return false; }
        if (o == "getopt") { r["v"] = findIface(S("id"))->getOption(optNames.at(S("o2"))); return true; }
        if (o == "tag") { findIface(S("id"))->setTag(S("tag"), S("v")); return false; }
        if (o == "getTag") { r["v"] = findIface(S("id"))->getTag(S("tag")); return true; }
        if (o == "info") { findIface(S("id"))->setInfo(S("v")); return false; }
        if (o == "getInfo") { r["v"] = findIface(S("id"))->getInfo(); return true; }
        if (o == "ftag") { f->fed->setTag(S("tag"), S("v")); return false; }
        if (o == "getFtag") { r["v"] = f->fed->getTag(S("tag")); return true; }
        if (o == "inmeta") {
            auto& i = *W->inputs.at(S("id"));
            r["itype"] = i.getInjectionType(); r["etype"] = i.getExtractionType(); r["iunits"] = i.getInjectionUnits(); r["eunits"] = i.getExtractionUnits();
            r["targets"] = i.getSourceTargets();
            return true;
        }
        if (o == "change") {
            // change detection thresholds
            if (W->inputs.count(S("id"))) W->inputs[S("id")]->setMinimumChange(op.at("d").get<double>());
            else W->pubs.at(S("id"))->setMinimumChange(op.at("d").get<double>());
            return false;
        }
        if (o == "defDest") { W->eps.at(S("id"))->setDefaultDestination(S("t")); return false; }
        if (o == "subscribe") { W->eps.at(S("id"))->subscribe(S("t")); return false; }
        if (o == "dep") { f->fed->addDependency(S("t")); return false; }
        if (o == "falias") { f->fed->addAlias(S("i"), S("a")); return false; }
        if (o == "setProp") {
            if (timeProps.count(S("p"))) f->fed->setProperty(timeProps.at(S("p")), mkTime(op.at("v").get<int64_t>()));
            else f->fed->setProperty(intProps.at(S("p")), op.at("v").get<int>());
            return false;
        }
        if (o == "getProp") {
            if (timeProps.count(S("p"))) r["v"] = tnum(f->fed->getTimeProperty(timeProps.at(S("p"))));
            else r["v"] = f->fed->getIntegerProperty(intProps.at(S("p")));
            return true;
        }
        if (o == "setFlag") { f->fed->setFlagOption(flagNames.at(S("p")), op.value("v", true)); return false; }
        if (o == "getFlag") { r["v"] = f->fed->getFlagOption(flagNames.at(S("p"))) ? 1 : 0; return true; }
        if (o == "regIfaces") { f->fed->registerInterfaces(op.at("json").dump()); return false; }
        // --- federate lifecycle
        if (o == "enterInit") { f->fed->enterInitializingMode(); dmp = true; return true; }
        if (o == "enterInitIter") { f->fed->enterInitializingModeIterative(); return true; }
        if (o == "enterInitAsync") { f->fed->enterInitializingModeAsync(); return true; }
        if (o == "enterInitComplete") { f->fed->enterInitializingModeComplete(); dmp = true; return true; }
        if (o == "enterExec") { auto x = f->fed->enterExecutingMode(iterReq(op)); r["st"] = int(x); r["t"] = tnum(f->fed->getCurrentTime()); dmp = true; return true; }
        if (o == "execAsync") { f->fed->enterExecutingModeAsync(iterReq(op)); return true; }
        if (o == "execComplete") { auto x = f->fed->enterExecutingModeComplete(); r["st"] = int(x); r["t"] = tnum(f->fed->getCurrentTime()); dmp = true; return true; }
        if (o == "time") {
            Time t = mkTime(c.at("t").get<int64_t>());
            if (op.value("iter", 0) == 0 && !op.value("forceIter", false)) { auto g = f->fed->requestTime(t); r["t"] = tnum(g); r["st"] = 0; }
            else { auto g = f->fed->requestTimeIterative(t, iterReq(op)); r["t"] = tnum(g.grantedTime); r["st"] = int(g.state); }
            r["sup"] = 0;
            dmp = true;
            return true;
        }
        if (o == "timeAsync") {
            Time t = mkTime(c.at("t").get<int64_t>());
            if (op.value("iter", 0) == 0) f->fed->requestTimeAsync(t);
            else f->fed->requestTimeIterativeAsync(t, iterReq(op));
            return true;
        }
        if (o == "timeComplete") {
            if (op.value("iter", 0) == 0) { auto g = f->fed->requestTimeComplete(); r["t"] = tnum(g); r["st"] = 0; }
            else { auto g = f->fed->requestTimeIterativeComplete(); r["t"] = tnum(g.grantedTime); r["st"] = int(g.state); }
            dmp = true;
            return true;
        }
        if (o == "asyncDone") { r["v"] = f->fed->isAsyncOperationCompleted() ? 1 : 0; return true; }
        if (o == "finalize") { f->fed->finalize(); return true; }
        if (o == "finalizeAsync") { f->fed->finalizeAsync(); return true; }
        if (o == "finalizeComplete") { f->fed->finalizeComplete(); return true; }
        if (o == "disconnect") { f->fed->disconnect(); return true; }
        if (o == "destroy") { f->fed.reset(); return true; }
        if (o == "localError") { f->fed->localError(op.value("code", 1), op.value("m", "err")); return true; }
        if (o == "globalError") { f->fed->globalError(op.value("code", 1), op.value("m", "err")); return true; }
        if (o == "complete") { f->fed->completeOperation(); return true; }
        if (o == "processComm") { f->fed->processCommunication(); return false; }
        if (o == "mode") { return true; }
        // --- data
        if (o == "pub") { publishValue(*W->pubs.at(S("id")), W->vtype[S("id")], json(c.at("v"))); return op.value("quiet", false); }
        if (o == "get") {
            auto& i = *W->inputs.at(S("id"));
            r["u"] = i.isUpdated() ? 1 : 0;
            r["v"] = readValue(i, op.value("vt", W->vtype[S("id")]));
            r["u2"] = i.isUpdated() ? 1 : 0;
            r["lt"] = tnum(i.getLastUpdate());
            return true;
        }
        if (o == "isUpd") { r["u"] = W->inputs.at(S("id"))->isUpdated() ? 1 : 0; return true; }
        if (o == "chkUpd") { r["u"] = W->inputs.at(S("id"))->checkUpdate() ? 1 : 0; return true; }
        if (o == "clrUpd") { W->inputs.at(S("id"))->clearUpdate(); return false; }
        if (o == "send") {
            auto& e = *W->eps.at(S("id"));
            auto p = S("p");
            if (op.contains("msg")) {
                auto m = std::make_unique<Message>();
                m->data = p;
                if (op.contains("t")) m->time = mkTime(op["t"].get<int64_t>());
                if (op.contains("d")) m->dest = S("d");
                if (op.contains("s")) m->source = S("s");
                if (op.contains("os")) m->original_source = S("os");
                if (op.contains("id2")) m->messageID = op["id2"];
                if (op.contains("fl")) m->flags = op["fl"].get<int>();
                e.send(std::move(m));
            } else if (op.contains("d") && op.contains("t")) e.sendToAt(p, S("d"), mkTime(op["t"].get<int64_t>()));
            else if (op.contains("d")) e.sendTo(p, S("d"));
            else if (op.contains("t")) e.sendAt(p, mkTime(op["t"].get<int64_t>()));
            else e.send(p);
            return op.value("quiet", false);
        }
        if (o == "recv") {
            auto& e = *W->eps.at(S("id"));
            r["n"] = n;
            r["cnt"] = int64_t(e.pendingMessageCount());
            auto m = e.getMessage();
            if (m) r["m"] = msgJson(*m);
            return true;
        }
        if (o == "recvAny") { r["cnt"] = int64_t(f->fed->pendingMessageCount()); auto m = f->fed->getMessage(); if (m) r["m"] = msgJson(*m); return true; }
        if (o == "pending") { r["cnt"] = int64_t(W->eps.at(S("id"))->pendingMessageCount()); r["any"] = int64_t(f->fed->pendingMessageCount()); return true; }
        // --- queries, commands, globals
        if (o == "query") { r["v"] = op.contains("t") ? f->fed->query(S("t"), S("q"), seqMode(op)) : f->fed->query(S("q"), seqMode(op)); return true; }
        if (o == "queryAsync") { auto q = f->fed->queryAsync(S("t"), S("q"), seqMode(op)); W->queries[S("id")] = q; return false; }
        if (o == "queryComplete") { r["v"] = f->fed->queryComplete(W->queries.at(S("id"))); return true; }
        if (o == "queryCb") { auto nm = name; f->fed->setQueryCallback([nm](std::string_view q) { if (q.substr(0, 3) == "abc") return nm + "!" + std::string(q); return std::string(); }); return false; }
        if (o == "cmd") { f->fed->sendCommand(S("t"), S("c"), seqMode(op)); return false; }
        if (o == "getCmd") { auto p = f->fed->getCommand(); r["c"] = p.first; r["src"] = p.second; if (!p.first.empty()) ++gotCmd; return true; }
        if (o == "waitCmd") { auto p = f->fed->waitCommand(); ++gotCmd; r["c"] = p.first; r["src"] = p.second; return true; }
        if (o == "global") { f->fed->setGlobal(S("g2"), S("v")); return false; }
        // --- core and broker operations
        if (o == "cquery") { r["v"] = W->cores.at(S("core"))->query(S("t"), S("q"), seqMode(op)); return true; }
        if (o == "ccmd") { W->cores.at(S("core"))->sendCommand(S("t"), S("c"), op.value("src", ""), seqMode(op)); return false; }
        if (o == "cglobal") { W->cores.at(S("core"))->setGlobal(S("g2"), S("v")); return false; }
        if (o == "cdataLink") { W->cores.at(S("core"))->dataLink(S("a"), S("b")); return false; }
        if (o == "clinkEp") { W->cores.at(S("core"))->linkEndpoints(S("a"), S("b")); return false; }
        if (o == "csrcFilter") { W->cores.at(S("core"))->addSourceFilterToEndpoint(S("a"), S("b")); return false; }
        if (o == "cdstFilter") { W->cores.at(S("core"))->addDestinationFilterToEndpoint(S("a"), S("b")); return false; }
        if (o == "calias") { W->cores.at(S("core"))->addAlias(S("a"), S("b")); return false; }
        if (o == "cconn") { W->cores.at(S("core"))->makeConnections(op.at("json").dump()); return false; }
        if (o == "cready") { W->cores.at(S("core"))->setCoreReadyToInit(); return false; }
        if (o == "cerror") { W->cores.at(S("core"))->globalError(gLocalCoreId, op.value("code", 1), op.value("m", "err")); return false; }
        if (o == "cdisc") { W->cores.at(S("core"))->disconnect(); return true; }
        if (o == "cwait") { r["v"] = W->cores.at(S("core"))->waitForDisconnect(std::chrono::milliseconds(op.value("ms", 0))) ? 1 : 0; return true; }
        if (o == "cconnected") { r["v"] = W->cores.at(S("core"))->isConnected() ? 1 : 0; return true; }
        if (o == "bquery") { r["v"] = brokerOf(op)->query(S("t"), S("q"), seqMode(op)); return true; }
        if (o == "bcmd") { brokerOf(op)->sendCommand(S("t"), S("c"), seqMode(op)); return false; }
        if (o == "bglobal") { brokerOf(op)->setGlobal(S("g2"), S("v")); return false; }
        if (o == "bdataLink") { brokerOf(op)->dataLink(S("a"), S("b")); return false; }
        if (o == "blinkEp") { brokerOf(op)->linkEndpoints(S("a"), S("b")); return false; }
        if (o == "bsrcFilter") { brokerOf(op)->addSourceFilterToEndpoint(S("a"), S("b")); return false; }
        if (o == "bdstFilter") { brokerOf(op)->addDestinationFilterToEndpoint(S("a"), S("b")); return false; }
        if (o == "balias") { brokerOf(op)->addAlias(S("a"), S("b")); return false; }
        if (o == "bconn") { brokerOf(op)->makeConnections(op.at("json").dump()); return false; }
        if (o == "barrier") { brokerOf(op)->setTimeBarrier(mkTime(op.at("t").get<int64_t>())); r["ok"] = 1; return true; }
        if (o == "clearBarrier") { brokerOf(op)->clearTimeBarrier(); r["ok"] = 1; return true; }
        if (o == "berror") { brokerOf(op)->globalError(op.value("code", 1), op.value("m", "err")); return false; }
        if (o == "bdisc") { brokerOf(op)->disconnect(); return true; }
        if (o == "bwait") { r["v"] = brokerOf(op)->waitForDisconnect(std::chrono::milliseconds(op.value("ms", 0))) ? 1 : 0; return true; }
        if (o == "bconnected") { r["v"] = brokerOf(op)->isConnected() ? 1 : 0; return true; }
        if (o == "bopen") { r["v"] = brokerOf(op)->isOpenToNewFederates() ? 1 : 0; return true; }
        throw std::runtime_error("scenario: unknown op " + o);
    }
};

static void runScenario(const json& sc)
{
    W = new World;
    Actor main;
    main.name = "main";
    if (sc.contains("setup")) main.run(sc["setup"]);
    std::vector<std::thread> th;
    for (auto& a : sc.at("actors")) {
        th.emplace_back([&a]() {
            Actor ac;
            ac.name = a.at("name").get<std::string>();
            sched::nameSelf(ac.name.c_str());
            ac.run(a.at("prog"));
            emit({{"k", "fin"}, {"f", ac.name}});
        });
    }
    for (auto& t : th) t.join();
    if (sc.contains("teardown")) main.run(sc["teardown"]);
    // the co-simulation must come down by itself once every federate is done
    if (sc.value("waitDown", true)) {
        for (auto& c : W->cores) {
            bool d = c.second->waitForDisconnect(std::chrono::milliseconds(5000));
            emit({{"k", "down"}, {"o", "core"}, {"f", c.first}, {"v", d && !c.second->isConnected() ? 1 : 0}});
        }
        for (auto& b : W->brokers) {
            bool d = b.second->waitForDisconnect(std::chrono::milliseconds(5000));
            emit({{"k", "down"}, {"o", "broker"}, {"f", b.first}, {"v", d && !b.second->isConnected() ? 1 : 0}});
        }
    }
}

static void child(const json& sc, const json& run, const std::string& file)
{
    g_fd = ::open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (!getenv("DRV_VERBOSE")) {
        int dn = ::open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
    }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, onCrash);
    signal(SIGALRM, [](int) { emit({{"k", "wall"}}); flushOut(); _exit(0); });
    alarm(unsigned(run.value("wall", 60)));
    sched::Options o;
    o.seed = run.value("seed", 1);
    o.policy = run.value("policy", 0);
    o.pswitch = run.value("p", 0.3);
    o.changes = run.value("changes", 3);
    o.horizon = run.value("horizon", 4000);
    o.maxSteps = run.value("maxSteps", 3000000);
    o.maxVirtualNs = uint64_t(run.value("maxVirtualS", 300)) * 1000000000ULL;
    g_out.reserve(1 << 20);
    sched::start(o, onStuck);
    try {
        runScenario(sc);
        emit({{"k", "end"}, {"steps", sched::steps()}, {"switches", sched::switches()}, {"threads", sched::liveThreads()}});
    }
    catch (const std::exception& e) {
        emit({{"k", "exc"}, {"msg", e.what()}});
    }
    flushOut();
    _exit(0);
}

// driver <batch.json> <outdir> <parallel>
//   batch: {"scenarios":[...], "runs":[{"scn":index,"seed":..,"policy":..},...]}
int main(int argc, char* argv[])
{
    if (argc < 4) { fprintf(stderr, "usage: driver batch.json outdir parallel\n"); return 2; }
    json batch;
    { std::ifstream i(argv[1]); i >> batch; }
    std::string out = argv[2];
    int par = atoi(argv[3]);
    int live = 0;
    size_t k = 0;
    auto& runs = batch["runs"];
    while (k < runs.size() || live > 0) {
        while (k < runs.size() && live < par) {
            auto file = out + "/" + std::to_string(k) + ".ndjson";
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 2; }
            if (p == 0) child(batch["scenarios"][runs[k]["scn"].get<size_t>()], runs[k], file);
            ++live;
            ++k;
        }
        int st;
        if (wait(&st) > 0) --live;
    }
    return 0;
}
