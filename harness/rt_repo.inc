// replacements for repository code that only performs I/O or seeding; included by harnesses
#include <utils/Random.h>
#include <utils/System.h>
