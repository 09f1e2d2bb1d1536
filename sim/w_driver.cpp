// World "driver": the library's drivers talk to a simulated oracle and a simulated region
// that follow a seeded script of answers, verdicts and failures.  A small reference
// state machine watches every message and the final report.
// Real: cutting_plane_feas, cutting_plane_dc, cutting_plane_q, bsearch, bsearch_adaptor
//       (and, in mode "pq", ell and profit_q_oracle).
#include "core.hpp"
#include <ellcpp/cut_config.hpp>
#include <py2cpp/fractions.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <optional>

using namespace sim;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

struct Boom
{
    int id;
};

static const char* stname(CUTStatus s)
{
    switch (s)
    {
        case CUTStatus::success: return "success";
        case CUTStatus::nosoln: return "nosoln";
        case CUTStatus::smallenough: return "smallenough";
        case CUTStatus::noeffect: return "noeffect";
    }
    return "?";
}

// ------------------------------------------------------------ points the regions hand out
template <typename P>
struct Pt;
template <>
struct Pt<double>
{
    static double make(long id) { return 1.0 + double(id) * 0.5; }
};
template <>
struct Pt<std::vector<double>>
{
    static std::vector<double> make(long id) { return {double(id), -double(id), 7.}; }
};
template <>
struct Pt<Arr>
{
    static Arr make(long id) { return Arr {double(id), 3., -double(id)}; }
};
template <typename P>
static bool eq(const P& a, const P& b)
{
    return a == b;
}

struct CutMsg
{
    long id = -1;
};

// one exchange of the script
struct Exch
{
    int fail = 0; // 1 oracle fails, 2 region fails
    bool accept = false;
    double dt = 0;
    bool shrunk = false, alt = false;
    CUTStatus verdict = CUTStatus::success;
    double tsq = 1;
};

static Exch parse_exch(const Step& st, double tol)
{
    Exch e;
    e.fail = int(st.i(1));
    e.accept = st.i(2) != 0;
    e.dt = st.d(3);
    e.shrunk = st.i(4) != 0;
    e.alt = st.i(5) != 0;
    e.verdict = CUTStatus(st.i(6));
    const std::string s = st.str(7);
    if (s == "inf")
        e.tsq = INFINITY;
    else if (s == "tol")
        e.tsq = tol;
    else if (s == "below")
        e.tsq = std::nextafter(tol, 0.);
    else if (s == "above")
        e.tsq = std::nextafter(tol, 1e300);
    else
        e.tsq = st.d(7);
    return e;
}

// ------------------------------------------------------------ the reference state machine
template <typename P>
struct Monitor
{
    enum Kind
    {
        FEAS,
        DC,
        Q
    };
    enum Expect
    {
        QUERY,
        UPDATE,
        DONE
    };
    Ctx& c;
    Kind kind;
    double tol;
    unsigned max_it;
    std::vector<Exch> script;
    size_t pos = 0;
    // region
    long centre = 0, fresh = 0;
    // conversation
    Expect expect = QUERY;
    long queries = 0, cutid = 0, session_queries = 0;
    bool retry = false, accepted = false, noalt = false, failed = false;
    CUTStatus reason = CUTStatus::success;
    Exch cur;
    // best
    double t0 = 0, t = 0;
    bool anybest = false;
    P best {};
    long points = 0;

    Monitor(Ctx& cc, Kind k, double to, unsigned mi)
        : c(cc)
        , kind(k)
        , tol(to)
        , max_it(mi)
    {
    }
    void start()
    {
        expect = QUERY;
        session_queries = 0;
        retry = accepted = noalt = failed = false;
        reason = CUTStatus::success;
        anybest = false;
        t0 = t;
    }
    Exch next()
    {
        if (pos < script.size())
            return script[pos++];
        Exch e; // faults over: the region has nothing left, the oracle has nothing against the point
        e.accept = kind == FEAS;
        e.verdict = CUTStatus::nosoln;
        return e;
    }
    // the oracle is asked
    void query(const P& x)
    {
        c.simtime += 1;
        ++c.checks;
        if (expect == DONE)
            c.violate("query-after-the-end", "the oracle is asked again after the search had to end (%s%s%s)", accepted ? "accepted" : stname(reason),
                noalt ? ", no alternative left" : "", failed ? ", failure" : "");
        if (expect == UPDATE)
            c.violate("cut-not-handed-over", "the oracle is asked again before its cut %ld reached the region", cutid);
        ++session_queries;
        if (session_queries > long(max_it))
            c.violate("over-budget", "query %ld with a limit of %u", session_queries, max_it);
        if (!eq(x, Pt<P>::make(centre)))
            c.violate("wrong-query-point", "query %ld is not at the region's current centre", session_queries);
        cur = next();
        if (cur.fail == 1)
        {
            failed = true;
            expect = DONE;
            c.fault("oracle-fails");
            c.ev("query %ld fails", session_queries);
            throw Boom {int(session_queries)};
        }
        ++cutid;
        expect = UPDATE;
    }
    void update(long id)
    {
        c.simtime += 1;
        ++c.checks;
        if (expect != UPDATE)
            c.violate("cut-handed-over-twice", "the region gets cut %ld with no query before it", id);
        if (id != cutid)
            c.violate("wrong-cut", "the region gets cut %ld, the oracle gave cut %ld", id, cutid);
        if (cur.fail == 2)
        {
            failed = true;
            expect = DONE;
            c.fault("region-fails");
            c.ev("update fails");
            throw Boom {int(1000 + session_queries)};
        }
        c.token(std::string(stname(cur.verdict)) + (cur.shrunk ? "+" : "-") + (cur.alt ? "a" : ".") + (cur.tsq < tol ? "<" : ">"));
        c.probe(std::string("verdict-") + stname(cur.verdict));
        if (cur.verdict != CUTStatus::success)
            c.fault("refused-cut");
        expect = QUERY;
        retry = false;
        if (kind == Q)
        {
            if (cur.verdict == CUTStatus::noeffect)
            {
                if (!cur.alt)
                {
                    noalt = true;
                    expect = DONE;
                    c.probe("no-alternative-left");
                }
                else
                {
                    retry = true;
                    c.probe("alternative-asked");
                }
            }
            if (cur.verdict == CUTStatus::nosoln)
                reason = cur.verdict, expect = DONE;
        }
        else if (cur.verdict != CUTStatus::success)
            reason = cur.verdict, expect = DONE;
        if (expect != DONE && cur.tsq < tol)
            reason = CUTStatus::smallenough, expect = DONE;
        if (cur.verdict == CUTStatus::success)
            centre = ++fresh;
        c.ev("cut %ld -> %s tsq=%.17g", id, stname(cur.verdict), cur.tsq);
    }
    void report(const CInfo& r)
    {
        ++c.checks;
        c.ev("report feasible=%d iters=%zu status=%s", int(r.feasible), r.num_iters, stname(r.status));
        c.token(stname(r.status));
        if (failed)
            c.violate("failure-swallowed", "the search returned although a peer failed");
        const bool out = expect == QUERY; // neither accepted nor terminal
        if (expect == UPDATE)
            c.violate("cut-not-handed-over", "the search returned without handing over the last cut");
        if (out && session_queries + 1 < long(max_it))
            c.violate("stopped-early", "the search returned after %ld of %u queries without a reason", session_queries, max_it);
        if (out)
        {
            c.probe("budget-exit");
            if (max_it > 0 && r.num_iters != max_it)
                c.violate("wrong-report", "the limit of %u ended the run, %zu iterations are reported", max_it, r.num_iters);
            if (max_it == 0 && r.num_iters > 1)
                c.violate("wrong-report", "no query was made, %zu iterations are reported", r.num_iters);
            if (kind != Q && r.status != CUTStatus::success)
                c.violate("wrong-report", "the limit ended the run, but %s is reported", stname(r.status));
            if (kind == Q && r.status == CUTStatus::smallenough)
                c.violate("wrong-report", "the limit ended the run, but %s is reported", stname(r.status));
        }
        else
        {
            if (r.num_iters != size_t(session_queries))
                c.violate("wrong-report", "%ld queries were made, %zu iterations are reported", session_queries, r.num_iters);
            if (!accepted && !noalt && r.status != reason)
                c.violate("wrong-report", "the search ended by %s, but %s is reported", stname(reason), stname(r.status));
            if (noalt && r.status == CUTStatus::smallenough)
                c.violate("wrong-report", "no alternative was left, but %s is reported", stname(r.status));
        }
        bool want = kind == FEAS ? accepted : t != t0;
        if (r.feasible != want)
            c.violate("wrong-report", "feasible=%d is reported, %s", int(r.feasible),
                kind == FEAS ? (accepted ? "the oracle accepted" : "the oracle accepted nothing") : (want ? "the best value changed" : "the best value did not change"));
    }
    void report_best(const P& x, double tt)
    {
        ++c.checks;
        if (memcmp(&tt, &t, sizeof t) != 0)
            c.violate("best-value-lost", "the best value is %.17g, the oracle left %.17g", tt, t);
        if (anybest && !eq(x, best))
            c.violate("best-point-lost", "the point returned is not the one of the last improvement");
        if (anybest)
            c.probe("best-returned");
    }
};

template <typename P>
struct FakeSpace
{
    Monitor<P>* m;
    P xc() const { return Pt<P>::make(m->centre); }
    std::tuple<CUTStatus, double> update(const CutMsg& k)
    {
        m->update(k.id);
        return {m->cur.verdict, m->cur.tsq};
    }
};

template <typename P>
struct FakeFeas
{
    Monitor<P>* m;
    std::optional<CutMsg> operator()(const P& x)
    {
        m->query(x);
        m->c.ev("query %ld accept=%d", m->session_queries, int(m->cur.accept));
        if (m->cur.accept)
        {
            m->accepted = true;
            m->expect = Monitor<P>::DONE;
            return {};
        }
        return CutMsg {m->cutid};
    }
};

template <typename P>
struct FakeOpt
{
    Monitor<P>* m;
    void value(const P& x, double& t, const P& own, bool q)
    {
        (void)x;
        ++m->c.checks;
        if (memcmp(&t, &m->t, sizeof t) != 0)
            m->c.violate("stale-best-value", "the oracle is asked with best value %.17g, it is %.17g", t, m->t);
        if (m->cur.shrunk)
        {
            m->anybest = true;
            m->best = q ? own : x;
            m->c.fault("improvement");
        }
        t += m->cur.dt;
        m->t = t;
        m->c.ev("query %ld t=%.17g shrunk=%d", m->session_queries, t, int(m->cur.shrunk));
    }
    std::tuple<CutMsg, bool> operator()(const P& x, double& t)
    {
        m->query(x);
        value(x, t, x, false);
        return {CutMsg {m->cutid}, m->cur.shrunk};
    }
    std::tuple<CutMsg, P, bool, bool> operator()(const P& x, double& t, bool retry)
    {
        if (m->expect == Monitor<P>::QUERY && retry != m->retry)
            m->c.violate(retry ? "alternative-asked-unduly" : "alternative-not-asked", "query %ld asks for %s cut, the previous cut had %s effect",
                m->session_queries + 1, retry ? "an alternative" : "a normal", m->retry ? "no" : "an");
        m->query(x);
        P own = Pt<P>::make(100000 + ++m->points);
        value(x, t, own, true);
        return {CutMsg {m->cutid}, own, m->cur.shrunk, m->cur.alt};
    }
};

// ------------------------------------------------------------ the adaptor's peers
struct AdWorld;
struct AdSpace
{
    AdWorld* w;
    long centre;
    std::vector<long> history; // cuts this region has taken
    int id;                    // 0: the region given to the adaptor
    double xc() const;
    void set_xc(const double& x);
    AdSpace copy() const;
    std::tuple<CUTStatus, double> update(const CutMsg& k);
};
struct AdOracle
{
    AdWorld* w;
    void update(const double& t);
    std::optional<CutMsg> operator()(const double& x);
};
struct AdWorld
{
    Ctx& c;
    Monitor<double> m;
    int copies = 0;
    bool updated = false;
    double told = 0;
    long main_centre = 0; // what the adaptor's region must show
    long fresh = 0;
    AdSpace* cur = nullptr;
    bool in_search = false;
    std::vector<long> queried; // centres of this search
    AdWorld(Ctx& cc, double tol, unsigned mi)
        : c(cc)
        , m(cc, Monitor<double>::FEAS, tol, mi)
    {
    }
};
double AdSpace::xc() const { return Pt<double>::make(centre); }
void AdSpace::set_xc(const double& x)
{
    centre = long(std::lround((x - 1.0) * 2));
    if (id == 0)
        w->c.ev("set_xc %ld", centre);
}
AdSpace AdSpace::copy() const
{
    AdSpace s(*this);
    s.id = ++w->copies;
    return s;
}
std::tuple<CUTStatus, double> AdSpace::update(const CutMsg& k)
{
    if (id == 0)
        w->c.violate("region-of-adaptor-cut", "the adaptor's own region got cut %ld", k.id);
    if (history.size() + 1 != size_t(w->m.session_queries))
        w->c.violate("search-not-from-start", "the inner search works on a region that already took %zu cuts at query %ld", history.size(), w->m.session_queries);
    history.push_back(k.id);
    w->m.centre = centre;
    w->m.update(k.id);
    if (w->m.cur.verdict == CUTStatus::success)
        centre = ++w->fresh + 1000;
    w->m.centre = centre;
    return {w->m.cur.verdict, w->m.cur.tsq};
}
void AdOracle::update(const double& t)
{
    w->told = t;
    w->updated = true;
    w->m.start();
    w->m.centre = w->main_centre;
    w->in_search = true;
    w->c.ev("threshold %.17g", t);
}
std::optional<CutMsg> AdOracle::operator()(const double& x)
{
    if (!w->in_search)
        w->c.violate("threshold-not-told", "the oracle is asked before it was told the midpoint");
    w->m.query(x);
    if (w->m.cur.accept)
    {
        w->m.accepted = true;
        w->m.expect = Monitor<double>::DONE;
        return {};
    }
    return CutMsg {w->m.cutid};
}

// ------------------------------------------------------------ bisection
using Frac = fun::Fraction<long>;
template <typename T>
static double dbl(const T& t)
{
    if constexpr (std::is_same<T, Frac>::value)
        return double(t.numerator()) / double(t.denominator());
    else
        return double(t);
}
template <typename T>
static T halved(const T& a, const T& b) // (b - a) / 2
{
    if constexpr (std::is_same<T, Frac>::value)
        return (b - a) / Frac(2L);
    else
        return (b - a) / 2;
}
template <typename T>
struct Decider
{
    Ctx& c;
    std::vector<Step> script;
    size_t pos = 0;
    T lower, upper;
    double thr;
    double tol;
    long asked = 0;
    bool failed = false;
    unsigned max_it;
    bool operator()(const T& t)
    {
        c.simtime += 1;
        ++c.checks;
        ++asked;
        if (asked > long(max_it))
            c.violate("over-budget", "question %ld with a limit of %u", asked, max_it);
        T half = halved(lower, upper);
        if (dbl(half) < tol)
            c.violate("query-after-the-end", "a question with half-length %.17g, tolerance %.17g", dbl(half), tol);
        T want = lower;
        want += half;
        const bool mid = std::is_floating_point<T>::value ? std::fabs(dbl(t) - dbl(want)) <= 4e-16 * (std::fabs(dbl(lower)) + std::fabs(dbl(upper))) : t == want;
        if (!mid)
            c.violate("not-the-midpoint", "asked about %.17g, the interval is [%.17g, %.17g]", dbl(t), dbl(lower), dbl(upper));
        int what = pos < script.size() ? int(script[pos].i(1)) : 0;
        ++pos;
        if (what == 3)
        {
            failed = true;
            c.fault("oracle-fails");
            throw Boom {int(asked)};
        }
        bool ans = dbl(t) >= thr;
        if (what == 1)
            ans = !ans, c.fault("wrong-decision");
        (ans ? upper : lower) = t;
        c.ev("ask %.17g -> %d", dbl(t), int(ans));
        c.token(ans ? "u" : "l");
        return ans;
    }
};

template <typename T>
static void run_bs(const Scenario& sc, Ctx& c)
{
    Options o;
    o.max_it = unsigned(sc.u("max_it"));
    o.tol = sc.d("tol");
    auto end = [&](const char* k) {
        if constexpr (std::is_same<T, Frac>::value)
            return Frac(long(sc.d(k)), sc.i("den", 1));
        else
            return T(sc.d(k));
    };
    std::pair<T, T> I {end("lo"), end("hi")};
    Decider<T> d {c, sc.steps, 0, I.first, I.second, sc.d("thr"), o.tol, 0, false, o.max_it};
    for (int round = 0; round < 60; ++round)
    {
        const T u0 = I.second;
        d.asked = 0;
        d.failed = false;
        auto same = [&]() {
            ++c.checks;
            if (!(I.first == d.lower) || !(I.second == d.upper))
                c.violate("bracket-lost", "the interval is [%.17g, %.17g], the decisions give [%.17g, %.17g]", dbl(I.first), dbl(I.second),
                    dbl(d.lower), dbl(d.upper));
        };
        try
        {
            CInfo r = bsearch(d, I, o);
            if (d.failed)
                c.violate("failure-swallowed", "the bisection returned although the oracle failed");
            same();
            c.ev("report feasible=%d status=%s", int(r.feasible), stname(r.status));
            bool small = dbl(halved(d.lower, d.upper)) < o.tol;
            if (r.feasible != !(d.upper == u0))
                c.violate("wrong-report", "feasible=%d is reported, the upper end %s", int(r.feasible), d.upper == u0 ? "did not move" : "moved");
            if (!small && d.asked < long(o.max_it))
                c.violate("stopped-early", "stopped after %ld of %u questions at half-length %.17g", d.asked, o.max_it, dbl(halved(d.lower, d.upper)));
            if (!small && r.status == CUTStatus::smallenough)
                c.violate("wrong-report", "small enough is reported at half-length %.17g", dbl(halved(d.lower, d.upper)));
            if (small && d.asked < long(o.max_it) && r.status != CUTStatus::smallenough)
                c.violate("wrong-report", "%s is reported at half-length %.17g, tolerance %.17g", stname(r.status), dbl(halved(d.lower, d.upper)), o.tol);
            if (small || o.max_it == 0)
                break;
            c.fault("budget-slice");
            if (d.pos > d.script.size() + 80)
                break;
        }
        catch (const Boom&)
        {
            if (!d.failed)
                throw;
            same();
        }
    }
}

static void run_ad(const Scenario& sc, Ctx& c)
{
    Options in, o;
    in.max_it = unsigned(sc.u("max_it"));
    in.tol = sc.d("itol");
    o.max_it = unsigned(sc.u("outer"));
    o.tol = sc.d("tol");
    AdWorld w(c, in.tol, in.max_it);
    for (auto& st : sc.steps)
        if (st.op() == "x")
            w.m.script.push_back(parse_exch(st, in.tol));
    AdSpace S {&w, sc.i("c0"), {}, 0};
    w.main_centre = S.centre;
    AdOracle P {&w};
    const bool defopt = sc.i("defopt") != 0;
    if (defopt)
        w.m.max_it = Options().max_it, w.m.tol = Options().tol;
    bsearch_adaptor<AdOracle, AdSpace> A = defopt ? bsearch_adaptor<AdOracle, AdSpace>(P, S) : bsearch_adaptor<AdOracle, AdSpace>(P, S, in);
    std::pair<double, double> I {sc.d("lo"), sc.d("hi")};
    double lower = I.first, upper = I.second;
    struct Probe
    {
        bsearch_adaptor<AdOracle, AdSpace>& A;
        AdWorld& w;
        AdSpace& S;
        double &lower, &upper;
        bool operator()(const double& t)
        {
            w.updated = w.in_search = false;
            bool r;
            try
            {
                r = A(t);
            }
            catch (const Boom&)
            {
                check();
                throw;
            }
            Ctx& c = w.c;
            ++c.checks;
            if (!w.updated || memcmp(&w.told, &t, sizeof t) != 0)
                c.violate("threshold-not-told", "the oracle was not told the midpoint %.17g", t);
            if (w.m.failed)
                c.violate("failure-swallowed", "the adaptor returned although a peer failed");
            if (r != w.m.accepted)
                c.violate("wrong-decision", "the adaptor says %d, the inner search %s", int(r), w.m.accepted ? "was accepted" : "found nothing");
            if (!w.m.accepted && w.m.expect == Monitor<double>::QUERY && w.m.session_queries + 1 < long(w.m.max_it))
                c.violate("stopped-early", "an inner search ended after %ld of %u queries without a reason", w.m.session_queries, w.m.max_it);
            if (r)
            {
                w.main_centre = w.m.centre;
                c.probe("midpoint-accepted");
            }
            c.token(r ? "u" : "l");
            check();
            (r ? upper : lower) = t;
            return r;
        }
        void check()
        {
            Ctx& c = w.c;
            ++c.checks;
            if (S.centre != w.main_centre)
                c.violate("kept-point-lost", "the adaptor's point is %ld, the last accepted search ended at %ld", S.centre, w.main_centre);
            if (A.x_best() != Pt<double>::make(w.main_centre))
                c.violate("kept-point-lost", "x_best() is not the point of the last accepted search");
            if (!S.history.empty())
                c.violate("region-of-adaptor-cut", "the shape of the adaptor's region changed");
        }
    } pr {A, w, S, lower, upper};
    for (int round = 0; round < 40; ++round)
    {
        try
        {
            CInfo r = bsearch(pr, I, o);
            ++c.checks;
            if (I.first != lower || I.second != upper)
                c.violate("bracket-lost", "the interval does not follow the decisions");
            c.ev("report feasible=%d status=%s", int(r.feasible), stname(r.status));
            break;
        }
        catch (const Boom&)
        {
            if (!w.m.failed)
                throw;
            if (I.first != lower || I.second != upper)
                c.violate("bracket-lost", "the interval does not follow the decisions made before the failure");
        }
    }
}

template <typename P>
static void run_opt(const Scenario& sc, Ctx& c)
{
    const std::string mode = sc.s("mode");
    const auto kind = mode == "feas" ? Monitor<P>::FEAS : mode == "dc" ? Monitor<P>::DC : Monitor<P>::Q;
    Options o;
    o.max_it = unsigned(sc.u("max_it"));
    o.tol = sc.d("tol");
    if (sc.i("defopt"))
        o = Options();
    Monitor<P> m(c, kind, o.tol, o.max_it);
    for (auto& st : sc.steps)
        m.script.push_back(parse_exch(st, o.tol));
    m.centre = sc.i("c0");
    m.t = sc.d("t0");
    double t = m.t;
    FakeSpace<P> S {&m};
    for (int round = 0; round < int(sc.i("rounds", 1)); ++round)
    {
        m.start();
        try
        {
            if (kind == Monitor<P>::FEAS)
            {
                FakeFeas<P> f {&m};
                CInfo r = sc.i("defopt") ? cutting_plane_feas(f, S) : cutting_plane_feas(f, S, o);
                m.report(r);
            }
            else
            {
                FakeOpt<P> f {&m};
                if (kind == Monitor<P>::DC)
                {
                    auto r = sc.i("defopt") ? cutting_plane_dc(f, S, t) : cutting_plane_dc(f, S, t, o);
                    m.report(std::get<1>(r));
                    m.report_best(std::get<0>(r), t);
                }
                else
                {
                    auto r = sc.i("defopt") ? cutting_plane_q(f, S, t) : cutting_plane_q(f, S, t, o);
                    m.report(std::get<1>(r));
                    m.report_best(std::get<0>(r), t);
                }
            }
        }
        catch (const Boom&)
        {
            if (!m.failed)
                throw;
            ++c.checks;
            if (memcmp(&t, &m.t, sizeof t) != 0)
                c.violate("best-value-lost", "after a failure the best value is %.17g, the oracle left %.17g", t, m.t);
        }
        if (m.pos >= m.script.size())
            break;
        c.fault("search-called-again");
    }
}

// ------------------------------------------------------------ the real discrete oracle on a real region
struct PqSpace
{
    ell& e;
    Ctx& c;
    Rng& r;
    double prefuse;
    bool last_noeffect = false, any = false;
    Arr xc() const { return e.xc(); }
    std::tuple<CUTStatus, double> update(const std::tuple<Arr, double>& k)
    {
        c.simtime += 1;
        any = true;
        std::tuple<CUTStatus, double> a;
        if (r.p(prefuse))
        { // the region refuses the cut as having no effect
            c.fault("refused-cut");
            a = {CUTStatus::noeffect, 1.0};
        }
        else
            a = e.update(k);
        last_noeffect = std::get<0>(a) == CUTStatus::noeffect;
        c.ev("update %s %.17g", stname(std::get<0>(a)), std::get<1>(a));
        c.token(stname(std::get<0>(a)));
        if (last_noeffect)
            c.probe("verdict-noeffect");
        return a;
    }
};
static void run_pq(const Scenario& sc, Ctx& c)
{
    Rng r(sc.u("pseed"));
    const Arr a {sc.d("a0"), sc.d("a1")}, v {sc.d("v0"), sc.d("v1")};
    profit_q_oracle P(sc.d("p"), sc.d("A"), sc.d("k"), a, v);
    ell E(Arr {100., 100.}, Arr {0., 0.});
    PqSpace S {E, c, r, sc.d("prefuse")};
    int retries = 0;
    bool offered = false;
    Arr at, xlast;
    long queries = 0;
    auto O = [&](const Arr& y, double& t, bool retry) {
        ++queries;
        ++c.checks;
        if (S.any && S.last_noeffect && !offered)
            c.violate("query-after-the-end", "the oracle is asked again after it had no alternative left");
        const bool want = S.any && S.last_noeffect;
        if (retry != want)
            c.violate(retry ? "alternative-asked-unduly" : "alternative-not-asked", "query %ld asks for %s cut, the previous cut had %s effect", queries,
                retry ? "an alternative" : "a normal", want ? "no" : "an");
        if (retry)
        {
            ++retries;
            c.probe("alternative-asked");
            if (!(at == y))
                c.violate("alternative-elsewhere", "an alternative is asked for at another centre");
            if (retries > 8)
                c.violate("alternatives-without-end", "the oracle offers an alternative for the %d-th time in a row", retries);
        }
        else
            retries = 0;
        at = y;
        auto ans = P(y, t, retry);
        offered = std::get<3>(ans);
        if (retry && !(std::get<1>(ans) == xlast))
            c.probe("alternative-point-moved");
        xlast = std::get<1>(ans);
        c.ev("query retry=%d t=%.17g alt=%d", int(retry), t, int(offered));
        return ans;
    };
    double t = 0.;
    Options o;
    o.max_it = unsigned(sc.u("max_it"));
    o.tol = sc.d("tol");
    auto res = cutting_plane_q(O, S, t, o);
    ++c.checks;
    if (std::get<1>(res).feasible != (t != 0.))
        c.violate("wrong-report", "feasible does not tell whether the best value changed");
    if (queries > long(o.max_it))
        c.violate("over-budget", "%ld queries with a limit of %u", queries, o.max_it);
}

struct DriverWorld : World
{
    Scenario gen(Rng& r, const std::string& prop, bool thorough) override
    {
        Scenario sc;
        std::string mode;
        if (prop == "C06")
            mode = "feas";
        else if (prop == "C07")
            mode = r.p(0.5) ? "dc" : "q";
        else if (prop == "C08")
            mode = r.p(0.25) ? "pq" : "q";
        else
            mode = r.p(0.5) ? "bs" : "ad";
        sc.set("mode", mode);
        sc.set("tol", r.pick({1e-8, 1e-3, 0.25, 1e-12, 0.0}));
        sc.set("c0", r.i(0, 50));
        const bool faulty = r.p(0.85);
        if (mode == "pq")
        {
            sc.set("pseed", r.next());
            sc.set("a0", r.u(0.05, 0.45));
            sc.set("a1", r.u(0.05, 0.45));
            sc.set("v0", r.u(1, 20));
            sc.set("v1", r.u(1, 30));
            sc.set("p", r.u(5, 40));
            sc.set("A", r.u(5, 60));
            sc.set("k", r.u(2, 60));
            sc.set("prefuse", faulty ? r.u(0, 0.25) : 0.);
            sc.set("max_it", r.i(1, 200));
            return sc;
        }
        long len = r.p(0.1) ? 0 : r.p(0.02) ? r.i(100, 600) : r.i(1, thorough ? 80 : 30);
        sc.set("type", r.i(0, 2));
        if (mode == "bs")
        {
            const bool integer = r.p(0.4);
            const long kind = integer ? r.i(1, 3) : 0L;
            sc.set("int", kind);
            const bool edge = kind == 1 && r.p(0.3); // where a sum of the two ends would overflow
            double lo = edge ? 2147483647. - double(r.i(0, 2000000)) * 500 : integer ? double(r.i(-1000, 1000)) : r.u(-100, 100), w = integer ? double(r.i(0, r.p(0.3) ? 5 : 100000)) : r.p(0.1) ? 0. : std::pow(10, r.u(-3, 6));
            if (edge)
                w = std::floor(std::min(r.p(0.5) ? 1e9 : w, 2147483647. - lo));
            if (edge && r.p(0.3))
                w = 2147483647., lo = -double(r.i(0, 1));
            if (edge && lo < 0)
                w += lo;
            if (edge && r.p(0.2))
                lo = -2147483647., w = double(r.i(0, 2000000000));
            if (kind == 3)
                w = std::min(w, 4000.);
            sc.set("lo", lo);
            sc.set("hi", lo + w);
            const long den = kind == 3 ? r.i(1, 12) : 1;
            sc.set("den", den);
            sc.set("thr", r.pick({lo - 1, lo + w + 1, lo, lo + w, lo + w * 0.37, lo + w * r.u()}) / double(den));
            sc.set("tol", kind == 3 ? r.pick({1e-4, 1e-3, 0.5, 0.75, 1.0, 3.0}) : r.pick({1e-8, 1e-3, 0.5, 1.0, 3.0}));
            sc.set("max_it", r.p(0.1) ? r.i(0, 2) : r.p(0.4) ? r.i(3, 12) : r.i(30, 2000));
            for (long k = 0; k < len; ++k)
            {
                int w2 = 0;
                if (faulty)
                    w2 = r.p(0.12) ? 1 : r.p(0.08) ? 3 : 0;
                sc.add(fmt("d %d", w2));
            }
            return sc;
        }
        const bool defopt = r.p(0.05);
        sc.set("defopt", defopt ? 1 : 0);
        if (mode == "ad")
        {
            double lo = r.u(-10, 10), w = r.u(0.1, 20);
            sc.set("lo", lo);
            sc.set("hi", lo + w);
            sc.set("itol", sc.d("tol"));
            sc.set("tol", r.pick({1e-6, 1e-3, 0.1}));
            sc.set("outer", r.pick({0L, 1L, 5L, 2000L}));
            len *= 3;
        }
        sc.set("max_it", defopt ? 2000L : r.p(0.15) ? r.i(0, 2) : r.p(0.5) ? r.i(1, len + 2) : r.i(len + 2, len + 300));
        sc.set("t0", r.pick({0., 1e100, -3.5, 100.}));
        sc.set("rounds", mode == "feas" || mode == "ad" ? r.i(1, 6) : r.i(1, 4));
        const double pend = r.u(0.0, len > 90 ? 0.01 : 0.25), pimp = r.u(0, 1), pne = r.u(0, 0.6), palt = r.u(0.2, 1), pfail = faulty ? r.u(0, 0.1) : 0.;
        for (long k = 0; k < len; ++k)
        {
            int fail = r.p(pfail) ? int(r.i(1, 2)) : 0;
            bool accept = (mode == "feas" || mode == "ad") && r.p(mode == "ad" ? 0.3 : pend);
            bool shrunk = r.p(pimp);
            double dt = shrunk ? (r.p(0.1) ? 0. : -r.u(0, 10)) : (r.p(0.05) ? r.u(-1, 1) : 0.);
            int verdict = 0;
            if (mode == "q")
                verdict = r.p(pne) ? 3 : r.p(pend * 0.5) ? 1 : 0;
            else if (r.p(pend * 0.5))
                verdict = int(r.i(1, 3));
            std::string tsq;
            if (r.p(0.06))
                tsq = "below";
            else if (r.p(0.1))
                tsq = "tol";
            else if (r.p(0.1))
                tsq = "above";
            else if (r.p(0.03))
                tsq = "inf";
            else
                tsq = fmt("%.6g", std::pow(10, r.u(0.5, 6)));
            sc.add(fmt("x %d %d %.17g %d %d %d %s", fail, int(accept), dt, int(shrunk), int(r.p(palt)), verdict, tsq.c_str()));
        }
        return sc;
    }
    void run(const Scenario& sc, Ctx& c) override
    {
        const std::string mode = sc.s("mode");
        if (mode == "pq")
            return run_pq(sc, c);
        if (mode == "bs")
            return sc.i("int") == 1 ? run_bs<int>(sc, c) : sc.i("int") == 2 ? run_bs<long>(sc, c) : sc.i("int") == 3 ? run_bs<Frac>(sc, c) : run_bs<double>(sc, c);
        if (mode == "ad")
            return run_ad(sc, c);
        switch (sc.i("type"))
        {
            case 0: return run_opt<double>(sc, c);
            case 1: return run_opt<std::vector<double>>(sc, c);
            default: return run_opt<Arr>(sc, c);
        }
    }
};

int main(int argc, char** argv)
{
    DriverWorld w;
    return sim_main(argc, argv, w);
}
