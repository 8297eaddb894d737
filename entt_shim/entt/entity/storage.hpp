#include "entt/shim.hpp"
