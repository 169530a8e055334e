#pragma once
#include "coro/coro.hpp"
