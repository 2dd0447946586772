// g++ folds strcmp/strncmp in constant expressions, clang only their __builtin_ spellings.
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <stack>
#include <list>
#include <stdexcept>
#include <cstdio>
#include <random>
#include <thread>
#include <condition_variable>
#include <optional>
#include <unordered_map>
#include <set>
#include <array>
#include <chrono>
#define strcmp(...) __builtin_strcmp(__VA_ARGS__)
#define strncmp(...) __builtin_strncmp(__VA_ARGS__)
#define strlen(...) __builtin_strlen(__VA_ARGS__)
