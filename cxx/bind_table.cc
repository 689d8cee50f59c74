// Prints what the real module of bindings holds.
#include <nanobind/nanobind.h>
#include <cstdio>
namespace py = nanobind;
void nb_module_cpp(py::module_ &m);
static const char *class_of(const void *k)
{
  for (const auto &c : py::reg().classes)
    if (c.key == k) return c.name.c_str();
  return "";
}
static void value(const py::value &v)
{
  if (v.kind == py::value::boolean) std::printf("%s", v.b ? "true" : "false");
  else if (v.kind == py::value::integer) std::printf("%lld", static_cast<long long>(v.i));
  else if (v.kind == py::value::floating) std::printf("%.17g", v.d);
  else std::printf("null");
}
int main()
{
  py::module_ m;
  nb_module_cpp(m);
  std::printf("{\"classes\": [");
  const char *sep = "";
  for (const auto &c : py::reg().classes) {
    std::printf("%s[\"%s\", \"%s\"]", sep, c.name.c_str(), c.base_key != nullptr ? class_of(c.base_key) : "");
    sep = ", ";
  }
  std::printf("],\n\"functions\": [");
  sep = "";
  for (const auto &f : py::reg().funcs) {
    std::vector<std::string> k;
    f->kinds(k);
    std::printf("%s\n{\"name\": \"%s\", \"class\": \"%s\", \"property\": %s, \"returns\": \"%s\", \"args\": [", sep, f->name.c_str(), f->method ? class_of(f->cls_key) : "", f->property ? "true" : "false", f->result().c_str());
    sep = ",";
    const char *s = "";
    const std::size_t skip = f->method ? 1 : 0;
    for (std::size_t i = skip; i < k.size(); ++i) {
      const std::size_t n = i - skip;
      const bool named = n < f->arg_names.size();
      std::printf("%s[\"%s\", \"%s\"", s, named ? f->arg_names[n] : "", k[i].c_str());
      s = ", ";
      if (named && f->with_default[n] >= 0) {
        std::printf(", ");
        value(f->defaults[static_cast<std::size_t>(f->with_default[n])]);
      }
      std::printf("]");
    }
    std::printf("]}");
  }
  std::printf("\n]}\n");
  return 0;
}
