// Reference model of the command-line program.
#pragma once
#include <getopt.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstring>
#include <cstdlib>
static int sa_cli_main(int argc, char** argv) {
  static const option table[] = {
      {"version", no_argument, 0, 'v'},          {"help", no_argument, 0, 'h'},
      {"infile", required_argument, 0, 'i'},     {"use-device", required_argument, 0, 'x'},
      {"k-init", required_argument, 0, 'k'},     {"grid-resolution", required_argument, 0, 'g'},
      {"cpu-nthreads", required_argument, 0, 't'}, {"gpu-ndsize", required_argument, 0, 'd'},
      {"chunksize", required_argument, 0, 'c'},  {"use-chunking", no_argument, 0, 'u'},
      {"use-recompute", no_argument, 0, 'r'},    {"p-maxsize", required_argument, 0, 'p'},
      {"t-maxsize", required_argument, 0, 'm'},  {0, 0, 0, 0}};
  std::string infile = "";
  votess::vtargs par;
  votess::device dev = votess::gpu;
  for (int index = 0;;) {
    const int o = getopt_long(argc, argv, "vhi:x:k:g:t:d:c:urp:m:", table, &index);
    if (o == -1) break;
    if (o == 'i') infile = optarg;
    if (o == 'x') {
      if (strcmp(optarg, "cpu") == 0) dev = votess::cpu;
      else if (strcmp(optarg, "gpu") == 0) dev = votess::gpu;
    }
    if (o == 'k') par["k"] = atoi(optarg);
    if (o == 'g') par["knn_grid_resolution"] = atoi(optarg);
    if (o == 't') par["cpu_nthreads"] = atoi(optarg);
    if (o == 'd') par["gpu_ndsize"] = atoi(optarg);
    if (o == 'c') par["chunksize"] = atoi(optarg);
    if (o == 'u') par["use_chunking"] = true;
    if (o == 'r') par["use_recompute"] = true;
    if (o == 'p') par["cc_p_maxsize"] = atoi(optarg);
    if (o == 'm') par["cc_t_maxsize"] = atoi(optarg);
  }
  if (infile == "") return 1;
  std::vector<std::array<float, 3>> pts;
  std::ifstream file(infile);
  if (!file) return 1;
  for (std::string line; std::getline(file, line);) {
    std::istringstream s(line);
    std::array<float, 3> p;
    if (!(s >> p[0] >> p[1] >> p[2])) return 1;
    pts.push_back(p);
  }
  if (par["k"].get<int>() == 0) par["k"] = (int)(pts.size() < 64 ? pts.size() : 64);
  auto d = votess::tesellate<int, float>(pts, par, dev);
  d.print();
  return 0;
}
