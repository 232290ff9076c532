// instantiates every member of the cell image's templates for the analysis
#include "cellimage_module.hxx"
#include "cellstatistics.hxx"
#include "cellpyramid.hxx"
template class vigra::CellPyramid<vigra::cellimage::GeoMap, CellStatistics>;
