// Compiled in front of every translation unit of a harness: class templates are instantiated from the headers of
// the current tree instead of being linked from a prebuilt library.
#include <cstdint>
#include <cstddef>
#include "crocoddyl/core/macros.hpp"
#undef CROCODDYL_DECLARE_EXTERN_TEMPLATE_CLASS
#undef CROCODDYL_DECLARE_EXTERN_TEMPLATE_STRUCT
#undef CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_CLASS
#undef CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_STRUCT
#define CROCODDYL_DECLARE_EXTERN_TEMPLATE_CLASS(x)
#define CROCODDYL_DECLARE_EXTERN_TEMPLATE_STRUCT(x)
#define CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_CLASS(x)
#define CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_STRUCT(x)
