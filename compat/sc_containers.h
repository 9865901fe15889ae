/* Wraps /usr/include/sc_containers.h of apt's libsc 2.3.6.
 * p4est expects of a later libsc that sc_hash_array has a member user_data,
 * which 2.3.6 has as internal_data.user_data, and sc_hash_array_foreach. */
#ifndef VP_COMPAT_SC_CONTAINERS_H
#define VP_COMPAT_SC_CONTAINERS_H

/* The member internal_data becomes its own members, with the same layout. */
#define internal_data vp_internal_data[0];                              \
  struct                                                                \
  {                                                                     \
    sc_array_t         *pa;                                             \
    sc_hash_function_t  hash_fn;                                        \
    sc_equal_function_t equal_fn;                                       \
    void               *user_data;                                      \
    void               *current_item;                                   \
  }
#include_next <sc_containers.h>
#undef internal_data

#ifdef __cplusplus
#define _Static_assert static_assert
#endif
_Static_assert (offsetof (sc_hash_array_t, user_data) ==
                offsetof (sc_hash_array_t, vp_internal_data) +
                offsetof (sc_hash_array_data_t, user_data), "layout");
_Static_assert (offsetof (sc_hash_array_t, h) ==
                offsetof (sc_hash_array_t, vp_internal_data) +
                sizeof (sc_hash_array_data_t), "layout");

static inline void
sc_hash_array_foreach (sc_hash_array_t * hash_array, sc_hash_foreach_t fn)
{
  void               *save = hash_array->h->user_data;

  hash_array->h->user_data = hash_array->user_data;
  sc_hash_foreach (hash_array->h, fn);
  hash_array->h->user_data = save;
}

#endif
