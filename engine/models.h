#pragma once
#include <set>
#include <string>
bool isRecursiveLock(const std::string &cls);
bool extNoRetain(const std::string &n);
bool extPure(const std::string &n);
bool extDerefs(const std::string &n, size_t arg);
