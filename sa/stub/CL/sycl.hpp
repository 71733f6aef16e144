#include <sycl/sycl.hpp>
