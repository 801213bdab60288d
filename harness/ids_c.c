/* Event id source in a C build (compiler intrinsics). */
#include "vf.h"
#include "ids.h"
#include "lib/event_id_provider.cpp"
#include "ids_body.h"
