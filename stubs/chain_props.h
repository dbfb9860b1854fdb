#ifndef CHAIN_PROPS_H
#define CHAIN_PROPS_H
#include "util/chains.h"
static inline bool c4_chains_get_props(chain_id_t chain_id, chain_properties_t* out_props) {
  if (!out_props) return false;
  return false;
}
#endif
