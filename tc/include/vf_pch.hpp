#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#include <range/v3/view/transform.hpp>
#include <regex>
#include <algorithm>
#include <filesystem>
#include <numbers>
#include <forward_list>
#include <antlr4-runtime.h>
#include "tree-annotatable.hpp"
#include "tree-base.hpp"
#include "libqasm/v3x/syntactic_generated.hpp"
#include "libqasm/v3x/semantic_generated.hpp"
#include "libqasm/v3x/CqasmParser.h"
#include "libqasm/v3x/analyzer.hpp"
