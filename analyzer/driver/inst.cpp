// Instantiations that no library source asks for, so that every template body is analysed resolved.
#include "Data.h"
#include "geometry/Grid.h"
#include "geometry/Box.h"
#include "geometry/BoundTerminations.h"
#include "geometry/mesh/Geometric.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "geometry/graph/Connectivities.h"
#include "math/matrix/Dynamic.h"
#include "math/matrix/Static.h"
#include "math/function/Polynomial.h"
#include "math/function/LinearInterpolation.h"
#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "math/util/SpaceGenerator.h"
#include "math/util/Statistic.h"
#include "math/axis/Local.h"
#include "math/vector/Spherical.h"
#include "math/vector/CVecI3Fractional.h"
#include "math/simplex/Line.h"
#include "math/simplex/Triangle.h"
#include "math/simplex/Tetrahedron.h"
#include "argument/Argument.h"
#include "argument/Parser.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/LineConformal.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Polygon.h"
#include "geometry/element/Polyhedron.h"
#include "physicalModel/volume/Classic.h"
namespace SEMBA {
namespace Math {
namespace Vector {
template class Cartesian<double, 3>;
template class Cartesian<int, 3>;
template class Cartesian<double, 2>;
template bool operator< (const Cartesian<double,3>&, const Cartesian<double,3>&);
template bool operator<=(const Cartesian<double,3>&, const Cartesian<double,3>&);
template bool operator> (const Cartesian<double,3>&, const Cartesian<double,3>&);
template bool operator>=(const Cartesian<double,3>&, const Cartesian<double,3>&);
template bool operator< (const Cartesian<int,3>&, const Cartesian<int,3>&);
template bool operator<=(const Cartesian<int,3>&, const Cartesian<int,3>&);
template bool operator> (const Cartesian<int,3>&, const Cartesian<int,3>&);
template bool operator>=(const Cartesian<int,3>&, const Cartesian<int,3>&);
template Cartesian<double,3> operator+(const Cartesian<int,3>&, const Cartesian<double,3>&);
template Cartesian<double,3> operator/(const Cartesian<int,3>&, const double);
}
namespace Matrix {
template class Static<double, 3, 3>;
template class Static<double, 4, 4>;
template Static<double,3,3> operator*(const Static<double,3,3>&, const Static<double,3,3>&);
}
namespace Function {
template class Polynomial<double>;
template class LinearInterpolation<double, double>;
}
namespace Util {
template Vector::Cartesian<double,3> round(const Vector::Cartesian<double,3>&);
template std::vector<double> logspace(const std::pair<double,double>&, const std::size_t);
template std::vector<double> linspace(const std::pair<double,double>&, const std::size_t);
template double meanDifference(const std::vector<double>&);
template double mean(const std::vector<double>&);
template double sum(const std::vector<double>&);
}
}
namespace Geometry {
template class Grid<3>;
template class Box<double, 3>;
template class Box<int, 3>;
namespace Element {
template class Element<double>;
template class Element<int>;
template class Surface<double>;
template class Surface<int>;
template class Volume<double>;
template class Volume<int>;
template class Node<double>;
template class Node<int>;
template class Line2<double>;
template class Line2<int>;
template class Polyline<double>;
template class Quadrilateral4<double>;
template class Quadrilateral4<int>;
template class Hexahedron8<double>;
template class Hexahedron8<int>;
}
}

}
namespace SEMBA {
namespace Group {
template class Group<SEMBA::Geometry::Layer::Layer>;
template class Identifiable<SEMBA::Geometry::Layer::Layer, SEMBA::Class::Identification<SEMBA::Geometry::Layer::Layer>>;
}
}
namespace semba_verif_driver {
using namespace SEMBA;
using namespace SEMBA::Geometry;
inline void useVectors(const Math::CVecR3& r, const Math::CVecI3& i) {
    Math::CVecR3 a(i); a = i; Math::CVecI3 b(r); b = r;
}
// the members of dynamic matrices that can be instantiated
template <class T> void useMatrix(Math::Matrix::Dynamic<T> a, Math::Matrix::Dynamic<T> b, std::pair<std::size_t, std::size_t> r) {
    Math::Matrix::Dynamic<T> c(2, 2); c = a; c.copy(a.copy(0, 1, 0, 1)); c.copy(std::vector<std::vector<T>>()); c = std::vector<T>();
    a + b; a += T(1); a += b; a *= T(2); a * b; a * T(1); a.kron(b); a.sub(r, r); a == b; a.convolute(b); a.invert(); a.transpose(); a.eliminateColumns(0, 1);
    a.sortRows(); a.sortRows(0, 1); a.sortAndRemoveRepeatedRows(); a.sortAndRemoveRepeatedRows_omp(); a.mergeSortedRows(b, 0, 1); a.findFirstOcurrenceInColumns(nullptr, 0, 1);
    a.zeros(); a.eye(); a.cpLowerTri2UpperTri(); a.convertToArray(0, nullptr); a.cpRowToVector(0); a.cpToCol(0, std::vector<T>()); a.cpToRow(0, std::vector<T>());
    a.maxVal(); a.maxValInCol(0); a.isSquare(); a.isSymmetric(); a.val(0); a.val(0, 0); a(0, 0); a.size();
}
inline void useMatrices(Math::Matrix::Dynamic<double> a, Math::Matrix::Dynamic<int> b) {
    useMatrix<double>(a, a, std::make_pair(std::size_t(0), std::size_t(0)));
}
// member templates of the groups
void useGroups(ElemRGroup& e, CoordR3Group& c, LayerGroup& l, PMGroup& m, SourceGroup& s, OutputRequest::Group<>& o) {
    e.getOf<SurfR>(); e.sizeOf<VolR>(); e.emptyOf<LinR>(); e.getOfOnly<Element::Triangle3>();
    e.add(new Element::Triangle3(*static_cast<Element::Triangle3*>(nullptr)));
    e.add(std::vector<Element::Triangle3*>());
    e.addId(std::vector<Element::Triangle3*>()); e.addId(new Element::Triangle3(*static_cast<Element::Triangle3*>(nullptr)));
    e.getIds(); c.getIds(); l.getIds(); m.getIds(); s.size(); o.size();
    e.cloneElems(); c.cloneElems(); l.cloneElems(); m.cloneElems(); s.cloneElems(); o.cloneElems();
    ElemRGroup e2(e); CoordR3Group c2(c); LayerGroup l2(l); PMGroup m2(m); SourceGroup s2(s); OutputRequest::Group<> o2(o);
    e2 = e; c2 = c; l2 = l; m2 = m; s2 = s; o2 = o;
    const ElemRGroup& ce = e; const CoordR3Group& cc = c;
    e.getCoordId(CoordId(1)); e.getMatId(MatId(1)); ce.getMatId(MatId(1)); e.getLayerId(LayerId(1)); ce.getLayerId(LayerId(1));
    e.getMatLayerId(MatId(1), LayerId(1)); ce.getMatLayerId(MatId(1), LayerId(1)); e.getInsideBound(BoxR3()); e.getBound(); e.getBound(std::vector<Element::Face>());
    e.getClosestVertex(Math::CVecR3()); e.setModel(nullptr); e.setLayer(nullptr); e.setModel(ElemId(1), nullptr); e.setLayer(ElemId(1), nullptr);
    e.separateByLayers(); e.getIndexByVertexId(); e.removeMatId(MatId(1)); e.reassignPointers(c); e.reassignPointers(l);
    cc.getPos(Math::CVecR3()); cc.getPos(Math::CVecI3()); cc.getAllInPos(Math::CVecI3()); c.addPos(Math::CVecR3());
    c.addPos(std::vector<Math::CVecR3>()); c.remove(std::size_t(0)); c.remove(std::vector<std::size_t>()); c.applyScalingFactor(1.); c.clear();
    CoordR3Group cv((std::vector<Math::CVecR3>())); CoordI3Group civ((std::vector<Math::CVecI3>()));
    CoordI3Group ci; ci.remove(std::size_t(0)); ci.remove(std::vector<std::size_t>()); ci.clear(); ci.getPos(Math::CVecI3()); ci.getAllInPos(Math::CVecI3()); ci.addPos(Math::CVecI3()); ci.addPos(std::vector<Math::CVecI3>());
    Element::Group<> ee; ee.getBound(); ee.getMatId(MatId(1)); ee.getLayerId(LayerId(1)); ee.getMatLayerId(MatId(1), LayerId(1));
    l.add(new Layer::Layer("")); m.addId(new PhysicalModel::Volume::Classic(MatId(0), "", 1., 1., 0., 0.));
}
}
