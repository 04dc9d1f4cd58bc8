// Common prefix of every driver: standard and deal.II headers first, then the real NATriuM
// headers with private/protected made public (layout unchanged), then the fakes.
#ifndef VC_COMMON_H_
#define VC_COMMON_H_
#include <array>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <functional>
#include <algorithm>
#include <memory>
#include <unordered_map>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <deal.II/base/index_set.h>
#include <deal.II/base/parameter_handler.h>
#include <deal.II/lac/trilinos_vector.h>
#include <deal.II/lac/trilinos_parallel_block_vector.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/trilinos_block_sparse_matrix.h>
#include <deal.II/base/tensor.h>
#include <deal.II/base/point.h>
#include "natrium/utilities/BasicNames.h"
#define private public
#define protected public
#include "natrium/stencils/Stencil.h"
#include "natrium/collision/CollisionModel.h"
#include "natrium/solver/DistributionFunctions.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/problemdescription/ProblemDescription.h"
#include "models.h"
#include "fakes.h"
using namespace natrium;
#endif
