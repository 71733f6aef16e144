// Reference model of the Python module.
#pragma once
#include <pybind11/pybind11.h>
PYBIND11_MODULE(pyvotess, m) {
  using namespace pybind11;
  using votess::vtargs;
  using votess::vtargref;
  using D = votess::dnn<int>;
  using R = decltype(std::declval<D&>()[0]);
  enum_<votess::device>(m, "device").value("cpu", votess::cpu).value("gpu", votess::gpu);
  class_<vtargref>(m, "vtargref")
      .def("__int__", [](const vtargref& r) { return r.get<int>(); })
      .def("__float__", [](const vtargref& r) { return r.get<float>(); })
      .def("__bool__", [](const vtargref& r) { return r.get<bool>(); })
      .def("__str__", [](const vtargref& r) { return r.get<std::string>(); });
  class_<vtargs>(m, "vtargs")
      .def(init<>())
      .def("__getitem__", [](vtargs& a, const std::string& k) -> vtargref& { return a[k]; }, return_value_policy::reference_internal)
      .def("__setitem__", [](vtargs& a, const std::string& k, object v) {
        const long t = __sa_py_type(v.id);
        if (t == 0 || t == 3) a[k] = v.cast<int>();
        else if (t == 1) a[k] = v.cast<float>();
        else if (t == 2) a[k] = v.cast<std::string>();
        else throw type_error("value");
      });
  class_<R>(m, "Proxy")
      .def("__getitem__", [](R& r, int i) -> int {
        if (i < 0 || size_t(i) >= r.size()) throw index_error("entry");
        return r[i];
      })
      .def("size", [](R& r) -> size_t { return r.size(); });
  class_<D>(m, "dnn")
      .def(init<>())
      .def(init<std::vector<int>&, std::vector<int>&>())
      .def("size", [](D& d) -> size_t { return d.size(); })
      .def("__getitem__", [](D& d, int i) -> R {
        if (i < 0 || size_t(i) >= d.size()) throw index_error("row");
        return d[i];
      }, keep_alive<0, 1>())
      .def("print", [](D& d) { d.print(); })
      .def("savetxt", [](D& d, const std::string& f) { d.savetxt(f); });
  m.def("tesellate", [](std::vector<std::array<float, 3>>& x, vtargs a, votess::device d) { return votess::tesellate<int, float>(x, a, d); },
        arg("xyzset"), arg("args"), arg("device") = votess::gpu);
}
