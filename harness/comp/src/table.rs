each! {
	copy1 h_c21_cpu_copy1 h_c21_fast1_copy1 h_c21_fast2_copy1 h_c21_fast4_copy1 => copies(1);
	copy2 h_c21_cpu_copy2 h_c21_fast1_copy2 h_c21_fast2_copy2 h_c21_fast4_copy2 => copies(2);
	copy8 h_c21_cpu_copy8 h_c21_fast1_copy8 h_c21_fast2_copy8 h_c21_fast4_copy8 => copies(8);
	short h_c21_cpu_short h_c21_fast1_short h_c21_fast2_short h_c21_fast4_short => short(2);
	short4 h_c21_cpu_short4 h_c21_fast1_short4 h_c21_fast2_short4 h_c21_fast4_short4 => short(4);
	views3 h_c21_cpu_views3 h_c21_fast1_views3 h_c21_fast2_views3 h_c21_fast4_views3 => views(3, &[0, 1, 2, 3, 4, 5]);
	views1 h_c21_cpu_views1 h_c21_fast1_views1 h_c21_fast2_views1 h_c21_fast4_views1 => views(1, &[0, 3, 4, 0]);
	views2 h_c21_cpu_views2 h_c21_fast1_views2 h_c21_fast2_views2 h_c21_fast4_views2 => views(2, &[4, 0, 5, 3]);
	views4 h_c21_cpu_views4 h_c21_fast1_views4 h_c21_fast2_views4 h_c21_fast4_views4 => views(4, &[5, 2, 1, 0]);
	allocs h_c21_cpu_allocs h_c21_fast1_allocs h_c21_fast2_allocs h_c21_fast4_allocs => allocs();
	inner7 h_c21_cpu_inner7 h_c21_fast1_inner7 h_c21_fast2_inner7 h_c21_fast4_inner7 => inner(7, 4, Aff(2), Aff(0));
	inner7b h_c21_cpu_inner7b h_c21_fast1_inner7b h_c21_fast2_inner7b h_c21_fast4_inner7b => inner(7, 4, Aff(2), Aff(1));
	inner7s h_c21_cpu_inner7s h_c21_fast1_inner7s h_c21_fast2_inner7s h_c21_fast4_inner7s => inner(7, 1, Aff(3), Aff(3));
	inner0 h_c21_cpu_inner0 h_c21_fast1_inner0 h_c21_fast2_inner0 h_c21_fast4_inner0 => inner(0, 1, Full, Aff(0));
	inner3 h_c21_cpu_inner3 h_c21_fast1_inner3 h_c21_fast2_inner3 h_c21_fast4_inner3 => inner(3, 2, Aff(4), Aff(0));
	inner3b h_c21_cpu_inner3b h_c21_fast1_inner3b h_c21_fast2_inner3b h_c21_fast4_inner3b => inner(3, 4, Aff(1), Aff(0));
	inner5 h_c21_cpu_inner5 h_c21_fast1_inner5 h_c21_fast2_inner5 h_c21_fast4_inner5 => inner(5, 2, Aff(0), Aff(2));
	inner4 h_c21_cpu_inner4 h_c21_fast1_inner4 h_c21_fast2_inner4 h_c21_fast4_inner4 => inner(4, 4, Aff(1), Aff(0));
	inner6 h_c21_cpu_inner6 h_c21_fast1_inner6 h_c21_fast2_inner6 h_c21_fast4_inner6 => inner(6, 4, Aff(2), Aff(1));
	expand0 h_c21_cpu_expand0 h_c21_fast1_expand0 h_c21_fast2_expand0 h_c21_fast4_expand0 => expand(0, 3, Aff(4), Aff(0));
	expand1 h_c21_cpu_expand1 h_c21_fast1_expand1 h_c21_fast2_expand1 h_c21_fast4_expand1 => expand(1, 2, Aff(2), Aff(2));
	expand2 h_c21_cpu_expand2 h_c21_fast1_expand2 h_c21_fast2_expand2 h_c21_fast4_expand2 => expand(2, 1, Aff(2), Aff(2));
	expand3 h_c21_cpu_expand3 h_c21_fast1_expand3 h_c21_fast2_expand3 h_c21_fast4_expand3 => expand(0, 1, Aff(4), Aff(4));
	expand4 h_c21_cpu_expand4 h_c21_fast1_expand4 h_c21_fast2_expand4 h_c21_fast4_expand4 => expand(3, 2, Aff(1), Aff(0));
	expand5 h_c21_cpu_expand5 h_c21_fast1_expand5 h_c21_fast2_expand5 h_c21_fast4_expand5 => expand(0, 4, Aff(0), Aff(2));
	eqind3 h_c21_cpu_eqind3 h_c21_fast1_eqind3 h_c21_fast2_eqind3 h_c21_fast4_eqind3 => eq_ind(3, Aff(3));
	eqind1 h_c21_cpu_eqind1 h_c21_fast1_eqind1 h_c21_fast2_eqind1 h_c21_fast4_eqind1 => eq_ind(1, Full);
	eqind0 h_c21_cpu_eqind0 h_c21_fast1_eqind0 h_c21_fast2_eqind0 h_c21_fast4_eqind0 => eq_ind(0, Full);
	eqind4 h_c21_cpu_eqind4 h_c21_fast1_eqind4 h_c21_fast2_eqind4 h_c21_fast4_eqind4 => eq_ind(4, Aff(2));
	foldl7 h_c21_cpu_foldl7 h_c21_fast1_foldl7 h_c21_fast2_foldl7 h_c21_fast4_foldl7 => fold(true, 7, 4, 2, Aff(1), Aff(0));
	foldr7 h_c21_cpu_foldr7 h_c21_fast1_foldr7 h_c21_fast2_foldr7 h_c21_fast4_foldr7 => fold(false, 7, 4, 2, Aff(1), Aff(0));
	foldl7b h_c21_cpu_foldl7b h_c21_fast1_foldl7b h_c21_fast2_foldl7b h_c21_fast4_foldl7b => fold(true, 7, 3, 1, Aff(1), Aff(2));
	foldr7b h_c21_cpu_foldr7b h_c21_fast1_foldr7b h_c21_fast2_foldr7b h_c21_fast4_foldr7b => fold(false, 7, 3, 1, Aff(1), Aff(2));
	foldl3 h_c21_cpu_foldl3 h_c21_fast1_foldl3 h_c21_fast2_foldl3 h_c21_fast4_foldl3 => fold(true, 3, 5, 2, Aff(0), Aff(3));
	foldr3 h_c21_cpu_foldr3 h_c21_fast1_foldr3 h_c21_fast2_foldr3 h_c21_fast4_foldr3 => fold(false, 3, 5, 2, Aff(0), Aff(3));
	foldl0 h_c21_cpu_foldl0 h_c21_fast1_foldl0 h_c21_fast2_foldl0 h_c21_fast4_foldl0 => fold(true, 0, 8, 5, Full, Aff(0));
	foldr0 h_c21_cpu_foldr0 h_c21_fast1_foldr0 h_c21_fast2_foldr0 h_c21_fast4_foldr0 => fold(false, 0, 8, 5, Full, Aff(0));
	foldl0b h_c21_cpu_foldl0b h_c21_fast1_foldl0b h_c21_fast2_foldl0b h_c21_fast4_foldl0b => fold(true, 0, 9, 4, Full, Aff(0));
	foldr0b h_c21_cpu_foldr0b h_c21_fast1_foldr0b h_c21_fast2_foldr0b h_c21_fast4_foldr0b => fold(false, 0, 9, 4, Full, Aff(0));
	foldl4 h_c21_cpu_foldl4 h_c21_fast1_foldl4 h_c21_fast2_foldl4 h_c21_fast4_foldl4 => fold(true, 4, 5, 3, Aff(4), Aff(0));
	foldr4 h_c21_cpu_foldr4 h_c21_fast1_foldr4 h_c21_fast2_foldr4 h_c21_fast4_foldr4 => fold(false, 4, 5, 3, Aff(4), Aff(0));
	foldl7s h_c21_cpu_foldl7s h_c21_fast1_foldl7s h_c21_fast2_foldl7s h_c21_fast4_foldl7s => fold(true, 7, 3, 3, Aff(2), Aff(0));
	foldr7s h_c21_cpu_foldr7s h_c21_fast1_foldr7s h_c21_fast2_foldr7s h_c21_fast4_foldr7s => fold(false, 7, 3, 3, Aff(2), Aff(0));
	foldl7t h_c21_cpu_foldl7t h_c21_fast1_foldl7t h_c21_fast2_foldl7t h_c21_fast4_foldl7t => fold(true, 7, 3, 0, Aff(2), Aff(0));
	foldr7t h_c21_cpu_foldr7t h_c21_fast1_foldr7t h_c21_fast2_foldr7t h_c21_fast4_foldr7t => fold(false, 7, 3, 0, Aff(2), Aff(0));
	foldl7u h_c21_cpu_foldl7u h_c21_fast1_foldl7u h_c21_fast2_foldl7u h_c21_fast4_foldl7u => fold(true, 7, 2, 1, Aff(2), Aff(0));
	foldr7u h_c21_cpu_foldr7u h_c21_fast1_foldr7u h_c21_fast2_foldr7u h_c21_fast4_foldr7u => fold(false, 7, 2, 1, Aff(2), Aff(0));
	line1 h_c21_cpu_line1 h_c21_fast1_line1 h_c21_fast2_line1 h_c21_fast4_line1 => line(1, Aff(4), Aff(4));
	line2 h_c21_cpu_line2 h_c21_fast1_line2 h_c21_fast2_line2 h_c21_fast4_line2 => line(2, Aff(2), Aff(4));
	line8 h_c21_cpu_line8 h_c21_fast1_line8 h_c21_fast2_line8 h_c21_fast4_line8 => line(8, Aff(1), Aff(0));
	line16 h_c21_cpu_line16 h_c21_fast1_line16 h_c21_fast2_line16 h_c21_fast4_line16 => line(16, Aff(2), Aff(0));
	line16z h_c21_cpu_line16z h_c21_fast1_line16z h_c21_fast2_line16z h_c21_fast4_line16z => line(16, Aff(0), Aff(8));
	line32 h_c21_cpu_line32 h_c21_fast1_line32 h_c21_fast2_line32 h_c21_fast4_line32 => line(32, Aff(1), Aff(0));
	line64 h_c21_cpu_line64 h_c21_fast1_line64 h_c21_fast2_line64 h_c21_fast4_line64 => line(64, Aff(1), Aff(0));
	fri000 h_c21_cpu_fri000 h_c21_fast1_fri000 h_c21_fast2_fri000 h_c21_fast4_fri000 => fri(3, 0, 0, Aff(2), Aff(0));
	fri001 h_c21_cpu_fri001 h_c21_fast1_fri001 h_c21_fast2_fri001 h_c21_fast4_fri001 => fri(3, 0, 1, Aff(2), Aff(0));
	fri002 h_c21_cpu_fri002 h_c21_fast1_fri002 h_c21_fast2_fri002 h_c21_fast4_fri002 => fri(3, 0, 2, Aff(2), Aff(0));
	fri010 h_c21_cpu_fri010 h_c21_fast1_fri010 h_c21_fast2_fri010 h_c21_fast4_fri010 => fri(3, 1, 0, Aff(1), Aff(0));
	fri011 h_c21_cpu_fri011 h_c21_fast1_fri011 h_c21_fast2_fri011 h_c21_fast4_fri011 => fri(3, 1, 1, Aff(1), Aff(0));
	fri021 h_c21_cpu_fri021 h_c21_fast1_fri021 h_c21_fast2_fri021 h_c21_fast4_fri021 => fri(2, 2, 1, Aff(1), Aff(0));
	fri022 h_c21_cpu_fri022 h_c21_fast1_fri022 h_c21_fast2_fri022 h_c21_fast4_fri022 => fri(3, 2, 2, Aff(0), Aff(2));
	fri022r h_c21_cpu_fri022r h_c21_fast1_fri022r h_c21_fast2_fri022r h_c21_fast4_fri022r => fri(3, 2, 2, Aff(0), Aff(0));
	fri033 h_c21_cpu_fri033 h_c21_fast1_fri033 h_c21_fast2_fri033 h_c21_fast4_fri033 => fri(3, 0, 3, Aff(2), Aff(0));
	fri1 h_c21_cpu_fri1 h_c21_fast1_fri1 h_c21_fast2_fri1 h_c21_fast4_fri1 => fri(2, 2, 2, Aff(0), Aff(3));
	fri3 h_c21_cpu_fri3 h_c21_fast1_fri3 h_c21_fast2_fri3 h_c21_fast4_fri3 => fri(2, 3, 1, Aff(0), Aff(1));
	map0 h_c21_cpu_map0 h_c21_fast1_map0 h_c21_fast2_map0 h_c21_fast4_map0 => maps(3, 0);
	map1 h_c21_cpu_map1 h_c21_fast1_map1 h_c21_fast2_map1 h_c21_fast4_map1 => maps(3, 2);
	map2 h_c21_cpu_map2 h_c21_fast1_map2 h_c21_fast2_map2 h_c21_fast4_map2 => maps(2, 2);
	joins h_c21_cpu_joins h_c21_fast1_joins h_c21_fast2_joins h_c21_fast4_joins => joins();
	prod0 h_c24_cpu_prod0 h_c24_fast1_prod0 h_c24_fast2_prod0 h_c24_fast4_prod0 => circuit(0, Full, false);
	prod1 h_c24_cpu_prod1 h_c24_fast1_prod1 h_c24_fast2_prod1 h_c24_fast4_prod1 => circuit(1, Aff(4), true);
	prod2 h_c24_cpu_prod2 h_c24_fast1_prod2 h_c24_fast2_prod2 h_c24_fast4_prod2 => circuit(2, Aff(2), true);
	prod3 h_c24_cpu_prod3 h_c24_fast1_prod3 h_c24_fast2_prod3 h_c24_fast4_prod3 => circuit(3, Aff(1), false);
	prod4 h_c24_cpu_prod4 h_c24_fast1_prod4 h_c24_fast2_prod4 h_c24_fast4_prod4 => circuit(4, Aff(0), false);
	comp_mul h_c21_cpu_comp_mul h_c21_fast1_comp_mul h_c21_fast2_comp_mul h_c21_fast4_comp_mul => composite(Ex::Mul, 8, Aff(1));
	comp_mul_2 h_c21_cpu_comp_mul_2 h_c21_fast1_comp_mul_2 h_c21_fast2_comp_mul_2 h_c21_fast4_comp_mul_2 => composite(Ex::Mul, 2, Aff(2));
	kern_mul h_c21_cpu_kern_mul h_c21_fast1_kern_mul h_c21_fast2_kern_mul h_c21_fast4_kern_mul => kernels(2, 0, true, Ex::Mul, Aff(1));
	kern_mul_n h_c21_cpu_kern_mul_n h_c21_fast1_kern_mul_n h_c21_fast2_kern_mul_n h_c21_fast4_kern_mul_n => kernels(3, 1, false, Ex::Mul, Aff(1));
	comp_lin h_c21_cpu_comp_lin h_c21_fast1_comp_lin h_c21_fast2_comp_lin h_c21_fast4_comp_lin => composite(Ex::Lin, 8, Aff(1));
	comp_lin_2 h_c21_cpu_comp_lin_2 h_c21_fast1_comp_lin_2 h_c21_fast2_comp_lin_2 h_c21_fast4_comp_lin_2 => composite(Ex::Lin, 2, Aff(2));
	kern_lin h_c21_cpu_kern_lin h_c21_fast1_kern_lin h_c21_fast2_kern_lin h_c21_fast4_kern_lin => kernels(2, 0, true, Ex::Lin, Aff(1));
	kern_lin_n h_c21_cpu_kern_lin_n h_c21_fast1_kern_lin_n h_c21_fast2_kern_lin_n h_c21_fast4_kern_lin_n => kernels(2, 1, false, Ex::Lin, Aff(1));
	comp_andxor h_c21_cpu_comp_andxor h_c21_fast1_comp_andxor h_c21_fast2_comp_andxor h_c21_fast4_comp_andxor => composite(Ex::AndXor, 8, Aff(1));
	comp_andxor_2 h_c21_cpu_comp_andxor_2 h_c21_fast1_comp_andxor_2 h_c21_fast2_comp_andxor_2 h_c21_fast4_comp_andxor_2 => composite(Ex::AndXor, 2, Aff(2));
	kern_andxor h_c21_cpu_kern_andxor h_c21_fast1_kern_andxor h_c21_fast2_kern_andxor h_c21_fast4_kern_andxor => kernels(2, 0, true, Ex::AndXor, Aff(1));
	kern_andxor_n h_c21_cpu_kern_andxor_n h_c21_fast1_kern_andxor_n h_c21_fast2_kern_andxor_n h_c21_fast4_kern_andxor_n => kernels(2, 1, false, Ex::AndXor, Aff(1));
	comp_cube h_c21_cpu_comp_cube h_c21_fast1_comp_cube h_c21_fast2_comp_cube h_c21_fast4_comp_cube => composite(Ex::Cube, 8, Aff(1));
	comp_cube_2 h_c21_cpu_comp_cube_2 h_c21_fast1_comp_cube_2 h_c21_fast2_comp_cube_2 h_c21_fast4_comp_cube_2 => composite(Ex::Cube, 2, Aff(2));
	kern_cube h_c21_cpu_kern_cube h_c21_fast1_kern_cube h_c21_fast2_kern_cube h_c21_fast4_kern_cube => kernels(2, 0, true, Ex::Cube, Aff(1));
	kern_cube_n h_c21_cpu_kern_cube_n h_c21_fast1_kern_cube_n h_c21_fast2_kern_cube_n h_c21_fast4_kern_cube_n => kernels(2, 1, false, Ex::Cube, Aff(1));
	comp_var h_c21_cpu_comp_var h_c21_fast1_comp_var h_c21_fast2_comp_var h_c21_fast4_comp_var => composite(Ex::Var, 8, Aff(1));
	comp_var_2 h_c21_cpu_comp_var_2 h_c21_fast1_comp_var_2 h_c21_fast2_comp_var_2 h_c21_fast4_comp_var_2 => composite(Ex::Var, 2, Aff(2));
	kern_var h_c21_cpu_kern_var h_c21_fast1_kern_var h_c21_fast2_kern_var h_c21_fast4_kern_var => kernels(2, 0, true, Ex::Var, Aff(1));
	kern_var_n h_c21_cpu_kern_var_n h_c21_fast1_kern_var_n h_c21_fast2_kern_var_n h_c21_fast4_kern_var_n => kernels(2, 1, false, Ex::Var, Aff(1));
	comp_shared h_c21_cpu_comp_shared h_c21_fast1_comp_shared h_c21_fast2_comp_shared h_c21_fast4_comp_shared => composite(Ex::Shared, 8, Aff(1));
	comp_shared_2 h_c21_cpu_comp_shared_2 h_c21_fast1_comp_shared_2 h_c21_fast2_comp_shared_2 h_c21_fast4_comp_shared_2 => composite(Ex::Shared, 2, Aff(2));
	kern_shared h_c21_cpu_kern_shared h_c21_fast1_kern_shared h_c21_fast2_kern_shared h_c21_fast4_kern_shared => kernels(2, 0, true, Ex::Shared, Aff(1));
	kern_shared_n h_c21_cpu_kern_shared_n h_c21_fast1_kern_shared_n h_c21_fast2_kern_shared_n h_c21_fast4_kern_shared_n => kernels(2, 1, false, Ex::Shared, Aff(1));
	comp_lin_full h_c21_cpu_comp_lin_full h_c21_fast1_comp_lin_full h_c21_fast2_comp_lin_full h_c21_fast4_comp_lin_full => composite(Ex::Lin, 1, Aff(4));
	comp_mul16 h_c21_cpu_comp_mul16 h_c21_fast1_comp_mul16 h_c21_fast2_comp_mul16 h_c21_fast4_comp_mul16 => composite(Ex::Mul, 16, Aff(1));
	kern_s h_c21_cpu_kern_s h_c21_fast1_kern_s h_c21_fast2_kern_s h_c21_fast4_kern_s => kernels(1, 0, true, Ex::Mul, Aff(2));
	kern_1 h_c21_cpu_kern_1 h_c21_fast1_kern_1 h_c21_fast2_kern_1 h_c21_fast4_kern_1 => kernels(0, 0, true, Ex::Mul, Aff(3));
	kern_big h_c21_cpu_kern_big h_c21_fast1_kern_big h_c21_fast2_kern_big h_c21_fast4_kern_big => kernels(4, 1, true, Ex::Var, Aff(1));
}
harness! {
	h_c21_cpu_prod1 => { exact(true); product::<C>(1, Aff(4)); };
	h_c21_cpu_prod2 => { exact(true); product::<C>(2, Aff(3)); };
	h_c21_cpu_prod3 => { exact(true); product::<C>(3, Aff(1)); };
}
