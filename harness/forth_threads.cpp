// Runs a list of AwkwardForth programs first alone and then on several threads at
// once (each thread has machines of its own; input buffers are shared), and
// compares every final state. Built with ThreadSanitizer.
#include <atomic>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>
#include <vector>

#include "awkward/forth/ForthMachine.h"
#include "awkward/forth/ForthInputBuffer.h"
#include "awkward/forth/ForthOutputBuffer.h"
#include "awkward/array/NumpyArray.h"

namespace ak = awkward;

struct Program {
  int bits; int64_t stack, depth, init; double grow;
  std::vector<std::pair<std::string, std::shared_ptr<void>>> names;
  std::vector<int64_t> lengths;
  std::string source;
};

template <typename M>
std::string execute(const Program& p) {
  M m(p.source, p.stack, p.depth, p.init, p.grow);
  std::map<std::string, std::shared_ptr<ak::ForthInputBuffer>> ins;
  for (size_t i = 0;  i < p.names.size();  i++) {
    ins[p.names[i].first] = std::make_shared<ak::ForthInputBuffer>(p.names[i].second, 0, p.lengths[i]);
  }
  ak::util::ForthError e = m.run(ins);
  while (e == ak::util::ForthError::none  &&  !m.is_done()) {
    e = m.resume();
  }
  std::stringstream out;
  out << "error " << (int)e << " stack";
  for (auto x : m.stack()) out << " " << (int64_t)x;
  for (auto x : m.variables()) out << " " << x.first << "=" << (int64_t)x.second;
  for (auto x : m.outputs()) {
    ak::ContentPtr c = m.output_NumpyArray_at(x.first);
    ak::NumpyArray* a = dynamic_cast<ak::NumpyArray*>(c.get());
    out << " " << x.first << ":" << x.second->len() << ":";
    uint8_t* bytes = reinterpret_cast<uint8_t*>(a->data());
    for (int64_t i = 0;  i < x.second->len() * a->itemsize();  i++) {
      out << std::hex << (int)bytes[i] << ",";
    }
    out << std::dec;
  }
  return out.str();
}

std::string go(const Program& p) {
  return p.bits == 32 ? execute<ak::ForthMachine32>(p) : execute<ak::ForthMachine64>(p);
}

int main(int argc, char** argv) {
  std::ifstream f(argv[1]);
  int nthreads = std::atoi(argv[2]), rounds = std::atoi(argv[3]);
  std::vector<Program> programs;
  size_t n;
  f >> n;
  for (size_t i = 0;  i < n;  i++) {
    Program p;
    size_t nin, len;
    f >> p.bits >> p.stack >> p.depth >> p.init >> p.grow >> nin;
    for (size_t k = 0;  k < nin;  k++) {
      std::string name, hex;
      f >> name >> hex;
      hex = hex.substr(1);
      size_t bytes = hex.size() / 2;
      std::shared_ptr<uint8_t> buf(new uint8_t[bytes + 1], std::default_delete<uint8_t[]>());
      for (size_t b = 0;  b < bytes;  b++) {
        buf.get()[b] = (uint8_t)std::stoi(hex.substr(2*b, 2), nullptr, 16);
      }
      p.names.push_back({name, buf});
      p.lengths.push_back((int64_t)bytes);
    }
    f >> len;
    f.get();
    p.source.resize(len);
    f.read(&p.source[0], (std::streamsize)len);
    programs.push_back(p);
  }
  std::vector<std::string> alone;
  for (auto& p : programs) alone.push_back(go(p));
  std::atomic<int> ready(0), bad(0);
  std::vector<std::thread> threads;
  for (int t = 0;  t < nthreads;  t++) {
    threads.emplace_back([&, t]() {
      ready++;
      while (ready.load() < nthreads) { }
      for (int r = 0;  r < rounds;  r++) {
        for (size_t i = 0;  i < programs.size();  i++) {
          // the threads meet on the same program in some rounds and not in others
          size_t k = (i + (size_t)(r % 2) * (size_t)t * 7) % programs.size();
          std::string got = go(programs[k]);
          if (got != alone[k]) {
            if (bad++ == 0) {
              std::cerr << "MISMATCH program " << k << "\nalone:   " << alone[k] << "\nthreads: " << got << std::endl;
            }
          }
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  std::cerr << "RUNS " << programs.size() * (size_t)nthreads * (size_t)rounds << " bad " << bad.load() << std::endl;
  return bad.load() ? 3 : 0;
}
