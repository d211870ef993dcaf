#pragma once
#include "cornerstone.hxx"
