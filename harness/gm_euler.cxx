#include "gm_ops.hxx"
using namespace gm;

static void history(pbt::Ctx &g, Aspects as, bool forceLabels, bool toggle)
{
    bool li = forceLabels || g.u(2);
    MapPtr m = genMap(g, li);
    History h(g, m, as);
    h.allowToggle = toggle; h.allowMove = as.geom;
    if(as.topo) checkTopology(*m);
    if(as.geom && g.u(2)) checkGeometry(*m);
    if(as.labels) checkLabelImage(*m);
    h.run(16);
    g.nontrivial(h.merges + h.bridgesRemoved + h.edgeMerges + h.splits >= 2);
}

PROP(P01, "history applied at least two structure-changing Euler operations")
{ Aspects a; a.topo = true; history(g, a, false, false); }
PROP(P02, "history applied at least two structure-changing Euler operations")
{ Aspects a; a.geom = true; history(g, a, false, false); }
PROP(P03, "label image present and at least two structure-changing Euler operations")
{ Aspects a; a.labels = true; history(g, a, true, true); }
PROP(P04, "history applied at least two structure-changing Euler operations")
{ Aspects a; a.sem = true; history(g, a, false, false); }

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
