#include "entt/shim_meta.hpp"
