// Files a harness hands to the code under test: written with std::ofstream; C-style reading (fopen, fgetc, fscanf with one
// conversion, fclose) goes to the same files. Include before the code under test.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <map>
#include <memory>
#include <regex>
#include <string>
#include <vector>
#include <sys/stat.h>
static std::vector<std::unique_ptr<std::ifstream>> fsx_ins;
static inline FILE* fsx_rd_open(const char* n, const char*) { fsx_ins.emplace_back(new std::ifstream(n)); if (!fsx_ins.back()->is_open()) return nullptr; return (FILE*)fsx_ins.size(); }
static inline int fsx_rd_getc(FILE* f) { char c; std::ifstream& s = *fsx_ins[(size_t)f - 1]; if (s.get(c)) return (unsigned char)c; return -1; }
template <class T> static inline int fsx_rd_scan(FILE* f, const char*, T* p) { return (*fsx_ins[(size_t)f - 1] >> *p) ? 1 : -1; }
#define fopen fsx_rd_open
#define fgetc fsx_rd_getc
#define fscanf fsx_rd_scan
#define fclose(f) (fsx_ins[(size_t)(f) - 1]->close(), 0)
