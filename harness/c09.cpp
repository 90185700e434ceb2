// C09-C13: discretisations of many fields, with everything the boundary, the mesh and the area
// computation report.
#include "fields.h"
using namespace slsm;

static std::string word(NodeStatus::NodeStatus s)
{
    if (s == NodeStatus::INSIDE) return "I";
    if (s == NodeStatus::OUTSIDE) return "O";
    if (s == NodeStatus::BOUNDARY) return "B";
    return "?";
}
static std::string word(ElementStatus::ElementStatus s)
{
    if (s == ElementStatus::INSIDE) return "IN";
    if (s == ElementStatus::OUTSIDE) return "OUT";
    if (s == ElementStatus::NONE) return "CUT";
    if (s == ElementStatus::CENTRE_INSIDE) return "CIN";
    if (s == ElementStatus::CENTRE_OUTSIDE) return "COUT";
    return "?";
}
static std::vector<int> xy(const Coord& c, double s) { return { fx(c.x, s), fx(c.y, s) }; }

static void record(Holder& h, Boundary& b, const Field& f, bool tgt)
{
    LevelSet& ls = h.ls;
    std::vector<double> sd = ls.signedDistance, tg = ls.target;
    b.discretise(ls, tgt);
    double ret = ls.computeAreaFractions(b);
    if (!tgt && f.phi.size() % 2) { b.computeNormalVectors(ls); for (auto& p : b.points) p.normal = Coord(p.normal.y + 2, 3 - p.normal.x); }   // left over from before
    if (!tgt) b.computeNormalVectors(ls);
    bool same = sd.size() == ls.signedDistance.size() && tg.size() == ls.target.size()
             && !memcmp(sd.data(), ls.signedDistance.data(), sd.size() * sizeof(double))
             && (tg.empty() || !memcmp(tg.data(), ls.target.data(), tg.size() * sizeof(double)));
    const double M = 1e6;
    int W = f.w, H = f.h;
    J j;
    j.k("ev", "disc").k("w", W).k("h", H).k("phi", f.phi).k("bt", f.bt).k("tgt", tgt).k("fieldsSame", same);
    j.k("act", h.row([&](unsigned n) { return (int)ls.mesh.nodes[n].isActive; })).k("masked", f.masked);
    std::vector<std::string> st, es;
    std::vector<std::vector<int> > np, el;
    std::vector<int> ar;
    for (int y = 0; y <= H; y++) for (int x = 0; x <= W; x++)
    {
        Node& n = ls.mesh.nodes[h.node(x, y)];
        st.push_back(word(n.status));
        std::vector<int> v;
        for (unsigned i = 0; i < n.nBoundaryPoints && i < 4; i++) v.push_back(n.boundaryPoints[i] + 1);
        if (n.nBoundaryPoints > 4) v.push_back(0);
        np.push_back(v);
    }
    std::vector<int> elemNo(ls.mesh.nElements, 0);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++)
    {
        unsigned e = ls.mesh.getElement(Coord(x + 0.5, y + 0.5));
        elemNo[e] = x + y * W + 1;
        Element& q = ls.mesh.elements[e];
        es.push_back(word(q.status));
        std::vector<int> v;
        for (unsigned i = 0; i < q.nBoundarySegments && i < 4; i++) v.push_back(q.boundarySegments[i] + 1);
        if (q.nBoundarySegments > 4) v.push_back(0);
        el.push_back(v);
        ar.push_back(fx(q.area, 2e8));
    }
    j.k("status", st).k("estatus", es).k("nodePts", np).k("elemSegs", el).k("areas", ar);
    j.k("areaTotal", fx(ls.area, M, 2100000000)).k("areaReturned", fx(ret, M, 2100000000));
    std::vector<std::vector<int> > pts, segs, ps, pn, nrm;
    std::vector<std::vector<int> > cell;
    std::vector<int> pl, pr, ng, po, ln;
    std::vector<bool> dom, fix, fin;
    for (size_t i = 0; i < b.points.size(); i++)
    {
        BoundaryPoint& p = b.points[i];
        pts.push_back(xy(p.coord, M));
        // The cell it lies in, and whether it lies on a line of nodes in each direction.
        auto line = [](double v) { return std::abs(v - std::round(v)) < 1e-9; };
        auto at = [&](double v) { return std::isfinite(v) && std::abs(v) < 1e6 ? (int)(line(v) ? std::round(v) : std::floor(v)) : -1; };
        cell.push_back({ at(p.coord.x), at(p.coord.y), line(p.coord.x), line(p.coord.y) });
        std::vector<int> a, c;
        for (unsigned k = 0; k < p.nSegments && k < p.segments.size(); k++) a.push_back(p.segments[k] + 1);
        for (unsigned k = 0; k < p.nNeighbours && k < p.neighbours.size(); k++) c.push_back(p.neighbours[k] + 1);
        if (p.nSegments > p.segments.size()) a.push_back(0);
        ps.push_back(a); pn.push_back(c);
        pl.push_back(fx(p.length, M));
        bool ok = true;
        for (int v : c) ok &= v >= 1 && v <= (int)b.points.size();
        pr.push_back(ok ? fx(b.computePerimeter(p), M) : -1);
        ng.push_back(fx(p.negativeLimit, M)); po.push_back(fx(p.positiveLimit, M));
        dom.push_back(p.isDomain); fix.push_back(p.isFixed);
        fin.push_back(std::isfinite(p.normal.x) && std::isfinite(p.normal.y));
        nrm.push_back({ fx(p.normal.x, 1e4, 40000), fx(p.normal.y, 1e4, 40000) });
    }
    for (auto& s : b.segments)
    {
        segs.push_back({ (int)s.start + 1, (int)s.end + 1, s.element < elemNo.size() ? elemNo[s.element] : 0 });
        ln.push_back(fx(s.length, M));
    }
    j.k("nPoints", b.nPoints).k("nSegments", b.nSegments).k("pts", pts).k("cell", cell).k("segs", segs).k("lens", ln).k("total", fx(b.length, M));
    j.k("ptSegs", ps).k("ptNbrs", pn).k("ptLens", pl).k("perims", pr).k("normals", nrm).k("normFinite", fin);
    j.k("ml", fx(ls.moveLimit, M)).k("neg", ng).k("pos", po).k("isDomain", dom).k("isFixed", fix);
    T.rec(j);
}

// Saddles whose centre sum vanishes are decided by rounding unless the values are whole numbers.
static void untie(Field& f)
{
    if (f.unit == 1.0) return;
    bool again = true;
    for (int k = 0; again && k < 100; k++)
    {
    again = false;
    for (int y = 0; y < f.h; y++) for (int x = 0; x < f.w; x++)
        if (f.at(x, y) + f.at(x + 1, y) + f.at(x, y + 1) + f.at(x + 1, y + 1) == 0)
        {
            int& v = f.at(x + k % 2, y + k / 2 % 2);
            if (std::abs(v) >= f.bt) v += v > 0 ? 6 * f.bt + k : -(6 * f.bt + k);
            again = true;
        }
    }
}

static void one(Field f, const std::string& what, double ml = 0.5, int band = 6, bool fixed = false, bool tgt = false, Boundary* reuse = nullptr, Rng* r = nullptr)
{
    untie(f);
    T.begin(what + " " + f.str() + (fixed ? " fixed" : "") + (tgt ? " target" : ""));
    Holder h(f, ml, band, fixed);
    if (tgt)
    {
        h.ls.target = h.ls.signedDistance;      // the field to be discretised
        for (auto& v : h.ls.signedDistance) v = r->in(-3, 3);
    }
    Boundary b;
    record(h, reuse ? *reuse : b, f, tgt);
}

static void randomMask(Rng& r, Field& f)
{
    int k = r.in(1, 2);
    for (; k > 0; k--)
    {
        int x0 = r.in(0, f.w), x1 = r.in(x0, f.w), y0 = r.in(0, f.h), y1 = r.in(y0, f.h);
        for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) f.masked[x + y * (f.w + 1)] = 1;
    }
}

// A field that real use produces: shapes, reinitialisation, masks, a few updates; rounded to 1e-6.
static void natural(Rng& r, const std::string& what, bool large = false)
{
    int w = large ? r.in(17, 44) : r.in(6, 12), hh = large ? r.in(17, 44) : r.in(6, 12);
    bool fixed = r.coin(1, 3);
    double ml = 0.05 + 0.9 * r.u();
    int band = r.in(3, 6);
    std::vector<Hole> holes;
    for (int k = large ? r.in(9, 25) : r.in(1, 3); k > 0; k--)
    {
        double q = r.coin() ? 1.0 : 0.5;
        if (r.coin()) holes.push_back(Hole(r.in(0, (int)(w / q)) * q, r.in(0, (int)(hh / q)) * q, r.in(2, 7) * 0.5));
        else holes.push_back(Hole(r.u() * w, r.u() * hh, 0.8 + 3 * r.u()));
    }
    T.begin(what);
    LevelSet ls(w, hh, holes, ml, band, fixed);
    ls.reinitialise();
    if (r.coin(1, 3)) { std::vector<Hole> m; m.push_back(Hole(r.u() * w, r.u() * hh, 1.2 + 2 * r.u())); ls.mask(m); }
    Boundary b;
    for (int s = r.in(0, 3); s > 0; s--)
    {
        b.discretise(ls);
        b.computeNormalVectors(ls);
        for (auto& p : b.points) p.velocity = r.u() * 2 - 1;
        ls.computeVelocities(b.points);
        ls.computeGradients();
        ls.update(0.4 * ml);
        if (r.coin(1, 3)) ls.reinitialise();
    }
    Field f(w, hh, 1e-6, 1);
    for (int y = 0; y <= hh; y++) for (int x = 0; x <= w; x++)
    {
        unsigned n = ls.mesh.xyToIndex[x][y];
        double v = ls.signedDistance[n] * 1e6;
        if (std::abs(v) < 60) v = 0;
        f.at(x, y) = (int)std::llround(v);
        f.masked[x + y * (w + 1)] = ls.mesh.nodes[n].isMasked;
    }
    untie(f);
    Holder h(f, ml, band, fixed);
    record(h, b, f, false);        // the boundary object has been used before
}

static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    // All sign patterns of one element, with several magnitudes.
    for (int m = 0; m < (thorough ? 12 : 4); m++) for (int c = 0; c < 81; c++)
    {
        Field f(1, 1);
        int k = c;
        for (auto& v : f.phi) { v = (k % 3 - 1) * (m == 0 ? 1 : r.in(1, 9)); k /= 3; }
        one(f, "all 1x1");
    }
    // All sign patterns of two elements.
    for (int m = 0; m < (thorough ? 4 : 1); m++) for (int c = 0; c < 729; c++)
    {
        bool tall = r.coin();
        Field f(tall ? 1 : 2, tall ? 2 : 1);
        int k = c;
        for (auto& v : f.phi) { v = (k % 3 - 1) * r.in(1, 9); k /= 3; }
        one(f, "all 2x1", r.coin() ? 0.5 : 0.1 + 0.8 * r.u());
    }
    // Sign patterns of four elements.
    for (int n = 0; n < (thorough ? 19683 : 500); n++)
    {
        int c = thorough ? n : r.in(0, 19682);
        Field f(2, 2);
        int k = c;
        for (auto& v : f.phi) { v = (k % 3 - 1) * r.in(1, 9); k /= 3; }
        one(f, "2x2", 0.9);
    }
    // Medium meshes: all kinds of fields, masks, fixed domains, targets, small bands, reused objects.
    Boundary used;
    for (int n = 0; n < (thorough ? 6000 : 450); n++)
    {
        bool large = n % 112 < 2;
        Field f = randomField(r, large ? r.in(11, 30) : r.in(2, 5), large ? r.in(11, 30) : r.in(2, 5), large ? r.pick(std::vector<int>{ 0, 2, 3 }) : n % 8);
        if (!large && n % 9 == 4)                                // points very close to nodes
        {
            f.unit = 0.015; f.bt = 1;
            for (auto& v : f.phi) v = (r.coin() ? 1 : -1) * (r.coin(1, 3) ? r.in(1, 6) : r.in(60, 190));
        }
        bool mask = r.coin(1, 3);
        if (mask) randomMask(r, f);
        one(f, "medium", r.coin() ? 0.5 : 0.02 + 0.96 * r.u(), r.in(3, 6), r.coin(1, 5), !mask && r.coin(1, 6), r.coin() ? &used : nullptr, &r);
    }
    for (int n = 0; n < (thorough ? 1500 : 90); n++) natural(r, "natural " + std::to_string(n));
    for (int n = 0; n < (thorough ? 60 : 4); n++) natural(r, "large " + std::to_string(n), true);
}
static Reg a("C09", run), b("C10", run), c("C11", run), d("C12", run), e("C13", run);
