#include "cppmap.hxx"
#include "cppmap_utils.hxx"
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
typedef Vector2 V;
inline GeoMap::EdgePtr E(GeoMap &m, int a, int b, std::initializer_list<V> pts)
{
    Vector2Array p;
    for(const V &x : pts)
        p.push_back(x);
    return m.addEdge(*m.node(a), *m.node(b), p);
}
#define CHECK(c) do { if(!(c)) { std::printf("failed: %s\n", #c); std::exit(1); } } while(0)
// successor / predecessor must be inverse for each dart of each live edge
inline void checkOrbits(GeoMap &m)
{
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
        for(int s = -1; s <= 1; s += 2)
        {
            GeoMap::Dart d(m.dart(s * (int)(*it)->label()));
            GeoMap::Dart n(d);
            n.nextSigma();
            CHECK(n.edge());
            CHECK(n.startNodeLabel() == d.startNodeLabel());
            n.prevSigma();
            CHECK(n.label() == d.label());
        }
}
