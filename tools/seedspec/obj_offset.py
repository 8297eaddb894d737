ID = "obj_offset"
PROPERTY = "P20"
NEEDS = "an obj file with three or more objects"
BREAKS = "faces of the third and later objects refer to wrong vertices"
EDITS = [("src/edyn/util/shape_io.cpp", """                index_offset += mesh.vertices.size();
                meshes.emplace_back(std::move(mesh));""", """                index_offset = mesh.vertices.size();
                meshes.emplace_back(std::move(mesh));""")]
DEMO = r'''
#include "edyn/util/shape_io.hpp"
#include <sstream>
#include <cstdio>
int main() {
    std::stringstream ss;
    for (int k = 0; k < 3; ++k) {
        ss << "o m" << k << "\nv 0 0 " << k << "\nv 1 0 " << k << "\nv 0 1 " << k << "\n";
        ss << "f " << 3 * k + 1 << " " << 3 * k + 2 << " " << 3 * k + 3 << "\n";
    }
    std::vector<edyn::obj_mesh> meshes;
    edyn::load_meshes_from_obj(ss, meshes);
    if (meshes.size() != 3) return 1;
    for (auto &m : meshes) {
        if (m.indices != std::vector<uint32_t>{0, 1, 2}) { puts("wrong indices"); return 1; }
    }
    return 0;
}
'''
FLAGS = "-Wl,--unresolved-symbols=ignore-all"
