#include <boost/bimap.hpp>
#include <boost/functional/hash.hpp>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/connected_components.hpp>
#include <boost/graph/copy.hpp>
#include <boost/graph/depth_first_search.hpp>
#include <boost/graph/dominator_tree.hpp>
#include <boost/graph/exception.hpp>
#include <boost/graph/graph_traits.hpp>
#include <boost/graph/graphviz.hpp>
#include <boost/graph/reverse_graph.hpp>
#include <boost/graph/strong_components.hpp>
#include <boost/graph/topological_sort.hpp>
#include <boost/lexical_cast.hpp>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <cstddef>
#include <cassert>
#include <utility>
#include <list>
#include <stdexcept>
#include <cstdio>
#include <tuple>
#include <sstream>
#include <map>
#include <iostream>
#include <ranges>
#include <functional>
#include <filesystem>
#include <set>
#include <optional>
#include <mutex>
#include <exception>
#include <cstdlib>
#include <cstdint>
#include <concepts>
#include <cmath>
#include <algorithm>
#include <typeindex>
#include <type_traits>
#include <string_view>
#include <regex>
#include <ostream>
#include <limits>
#include <iomanip>
#include <fstream>
#include <deque>
#include <cstring>
#include <climits>
#include <symengine/symengine_shim.hpp>
#include <isl/isl_shim.h>
