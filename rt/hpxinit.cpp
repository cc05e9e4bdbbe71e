// hpx::init for whole programs: parses the command line, runs hpx_main as the
// main task of the deterministic runtime and waits for all tasks, as shutting
// down HPX does.  An exception that leaves hpx_main ends the program.
#include "hpxshim.hpp"
#include <boost/program_options.hpp>
#include <cstdlib>
#include <exception>
#include <iostream>
int hpx_main(boost::program_options::variables_map &vm);
namespace {
int env(const char *n, int d) { const char *s = getenv(n); return s ? atoi(s) : d; }
}
namespace hpx {
int init(boost::program_options::options_description const &desc, int argc, char **argv) {
  namespace po = boost::program_options;
  po::variables_map vm;
  po::options_description all("HPX options");
  all.add(desc);
  try {
    po::store(po::command_line_parser(argc, argv).options(all).style(
                  po::command_line_style::unix_style & ~po::command_line_style::allow_guessing).run(), vm);
    po::notify(vm);
  } catch (std::exception &e) {
    std::cerr << "hpx::init: " << e.what() << std::endl;
    return -1;
  }
  vrt::Opt o;
  if (const char *s = getenv("VRT_STRATEGY")) o.strategy = s;
  o.seed = env("VRT_SEED", 1);
  o.localities = env("VRT_LOCALITIES", 1);
  std::exception_ptr err;
  int r = 0;
  vrt::run(o, [&] {
    try {
      r = hpx_main(vm);
    } catch (...) {
      err = std::current_exception();
      return;
    }
    vrt::drain();
  });
  std::cout.flush();
  if (err) {
    try {
      std::rethrow_exception(err);
    } catch (std::exception &e) {
      std::cerr << "terminate: " << e.what() << std::endl;
    } catch (...) {
    }
    std::abort();
  }
  return r;
}
}
