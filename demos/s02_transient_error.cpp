// A temporary read error on the backup must not destroy the only complete copy.
#include "Awl/Io/AtomicStorage.h"
#include <fstream>
#include <iostream>
#include <filesystem>
struct L : awl::Logger { void log(awl::LogLevel, awl::LogString) override {} };
static int errors;
struct V : awl::io::Serializable<> {
    char c[4] = {};
    void Read(awl::io::SequentialInputStream& s) override { if (errors > 0) { --errors; throw awl::io::IoError("temporary"); } char b[4]; if (s.Read((uint8_t*)b, 4) != 4) throw awl::io::EndOfFileException(4, 0); memcpy(c, b, 4); }
    void Write(awl::io::SequentialOutputStream& s) const override { s.Write((const uint8_t*)c, 4); }
};
int main() {
    auto d = std::filesystem::temp_directory_path() / ("s02demo" + std::to_string(getpid())); std::filesystem::create_directory(d);
    std::string m = d / "m", b = d / "b"; std::ofstream(m) << "x"; std::ofstream(b) << "good";
    L l; V v; { awl::io::AtomicStorage s(l, m, b); errors = 1; s.Load(v); }
    bool kept = std::filesystem::file_size(b) == 4;
    std::filesystem::remove_all(d); std::cout << (kept ? "OK\n" : "FAIL: backup lost\n"); return !kept;
}
