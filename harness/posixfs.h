// Environment model: the POSIX calls used by the library, each with every outcome.
#pragma once
#include "vf.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <cerrno>
