unsigned zpl_random_gen_u32_replacement(void);
unsigned zpl_random_gen_u32(void *r) { (void)r; return zpl_random_gen_u32_replacement(); }
