/* Event id source as the library is built (C++, std::atomic). */
#include "vf.h"
#include "ids.h"
#include "lib/event_id_provider.cpp"
#include "ids_body.h"
