// Prints the SkSL sources and interface of the mesh specifications, for tools/gen_shaders.py.
#include <cstdio>
#include <iostream>
#include "absl/strings/str_cat.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/rendering/skia/common_internal/sksl_common_shader_helper_functions.h"
#include "ink/rendering/skia/common_internal/sksl_fragment_shader_helper_functions.h"
#include "ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h"
#include "spec_formats.h"
using ink::skia_common_internal::MeshSpecificationData;
namespace {
void Dump(const char* name, const MeshSpecificationData& d) {
  std::cout << "@@SPEC " << name << "\n";
  for (int i = 0; i < d.attributes.Size(); ++i) std::cout << "@@ATTR " << int(d.attributes[i].type) << " " << d.attributes[i].offset << " " << std::string(d.attributes[i].name) << "\n";
  for (int i = 0; i < d.varyings.Size(); ++i) std::cout << "@@VARY " << int(d.varyings[i].type) << " " << std::string(d.varyings[i].name) << "\n";
  for (int i = 0; i < d.uniforms.Size(); ++i) std::cout << "@@UNIF " << int(d.uniforms[i].type) << " " << int(d.uniforms[i].id) << " " << std::string(MeshSpecificationData::GetUniformName(d.uniforms[i].id)) << "\n";
  std::cout << "@@VERT\n" << d.vertex_shader_source << "\n@@FRAG\n" << d.fragment_shader_source << "\n@@END\n";
}
}  // namespace
int main() {
  using namespace ink::skia_common_internal;
  std::cout << "@@HELPERS\n" << std::string(kSkSLCommonShaderHelpers) << std::string(kSkSLVertexShaderHelpers) << std::string(kSkSLFragmentShaderHelpers) << "\n@@END\n";
  auto formats = SpecFormats();
  for (size_t i = 0; i < formats.size(); ++i) {
    auto s = MeshSpecificationData::CreateForStroke(formats[i]);
    if (!s.ok()) { std::cerr << "format " << i << " rejected\n"; return 1; }
    Dump(("spec" + std::to_string(i)).c_str(), *s);
  }
  Dump("in_progress", MeshSpecificationData::CreateForInProgressStroke());
}
