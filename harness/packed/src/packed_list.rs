each!{arith: h_c03_arith_b8x1b PackedBinaryField8x1b; h_c03_arith_b4x2b PackedBinaryField4x2b; h_c03_arith_b2x4b PackedBinaryField2x4b; h_c03_arith_b1x8b PackedBinaryField1x8b; h_c03_arith_b16x1b PackedBinaryField16x1b; h_c03_arith_b8x2b PackedBinaryField8x2b; h_c03_arith_b4x4b PackedBinaryField4x4b; h_c03_arith_b2x8b PackedBinaryField2x8b; h_c03_arith_b1x16b PackedBinaryField1x16b; h_c03_arith_b32x1b PackedBinaryField32x1b; h_c03_arith_b16x2b PackedBinaryField16x2b; h_c03_arith_b8x4b PackedBinaryField8x4b; h_c03_arith_b4x8b PackedBinaryField4x8b; h_c03_arith_b2x16b PackedBinaryField2x16b; h_c03_arith_b1x32b PackedBinaryField1x32b; h_c03_arith_b64x1b PackedBinaryField64x1b; h_c03_arith_b32x2b PackedBinaryField32x2b; h_c03_arith_b16x4b PackedBinaryField16x4b; h_c03_arith_b8x8b PackedBinaryField8x8b; h_c03_arith_b4x16b PackedBinaryField4x16b; h_c03_arith_b2x32b PackedBinaryField2x32b; h_c03_arith_b1x64b PackedBinaryField1x64b; h_c03_arith_b128x1b PackedBinaryField128x1b; h_c03_arith_b64x2b PackedBinaryField64x2b; h_c03_arith_b32x4b PackedBinaryField32x4b; h_c03_arith_b16x8b PackedBinaryField16x8b; h_c03_arith_b8x16b PackedBinaryField8x16b; h_c03_arith_b4x32b PackedBinaryField4x32b; h_c03_arith_b2x64b PackedBinaryField2x64b; h_c03_arith_b1x128b PackedBinaryField1x128b; h_c03_arith_b256x1b PackedBinaryField256x1b; h_c03_arith_b128x2b PackedBinaryField128x2b; h_c03_arith_b64x4b PackedBinaryField64x4b; h_c03_arith_b32x8b PackedBinaryField32x8b; h_c03_arith_b16x16b PackedBinaryField16x16b; h_c03_arith_b8x32b PackedBinaryField8x32b; h_c03_arith_b4x64b PackedBinaryField4x64b; h_c03_arith_b2x128b PackedBinaryField2x128b; h_c03_arith_b512x1b PackedBinaryField512x1b; h_c03_arith_b256x2b PackedBinaryField256x2b; h_c03_arith_b128x4b PackedBinaryField128x4b; h_c03_arith_b64x8b PackedBinaryField64x8b; h_c03_arith_b32x16b PackedBinaryField32x16b; h_c03_arith_b16x32b PackedBinaryField16x32b; h_c03_arith_b8x64b PackedBinaryField8x64b; h_c03_arith_b4x128b PackedBinaryField4x128b; h_c03_arith_a1x8b PackedAESBinaryField1x8b; h_c03_arith_a2x8b PackedAESBinaryField2x8b; h_c03_arith_a1x16b PackedAESBinaryField1x16b; h_c03_arith_a4x8b PackedAESBinaryField4x8b; h_c03_arith_a2x16b PackedAESBinaryField2x16b; h_c03_arith_a1x32b PackedAESBinaryField1x32b; h_c03_arith_a8x8b PackedAESBinaryField8x8b; h_c03_arith_a4x16b PackedAESBinaryField4x16b; h_c03_arith_a2x32b PackedAESBinaryField2x32b; h_c03_arith_a1x64b PackedAESBinaryField1x64b; h_c03_arith_a16x8b PackedAESBinaryField16x8b; h_c03_arith_a8x16b PackedAESBinaryField8x16b; h_c03_arith_a4x32b PackedAESBinaryField4x32b; h_c03_arith_a2x64b PackedAESBinaryField2x64b; h_c03_arith_a1x128b PackedAESBinaryField1x128b; h_c03_arith_a32x8b PackedAESBinaryField32x8b; h_c03_arith_a16x16b PackedAESBinaryField16x16b; h_c03_arith_a8x32b PackedAESBinaryField8x32b; h_c03_arith_a4x64b PackedAESBinaryField4x64b; h_c03_arith_a2x128b PackedAESBinaryField2x128b; h_c03_arith_a64x8b PackedAESBinaryField64x8b; h_c03_arith_a32x16b PackedAESBinaryField32x16b; h_c03_arith_a16x32b PackedAESBinaryField16x32b; h_c03_arith_a8x64b PackedAESBinaryField8x64b; h_c03_arith_a4x128b PackedAESBinaryField4x128b; h_c03_arith_p1x128b PackedBinaryPolyval1x128b; h_c03_arith_p2x128b PackedBinaryPolyval2x128b; h_c03_arith_p4x128b PackedBinaryPolyval4x128b;}
each!{unary: h_c03_unary_b8x1b PackedBinaryField8x1b; h_c03_unary_b4x2b PackedBinaryField4x2b; h_c03_unary_b2x4b PackedBinaryField2x4b; h_c03_unary_b1x8b PackedBinaryField1x8b; h_c03_unary_b16x1b PackedBinaryField16x1b; h_c03_unary_b8x2b PackedBinaryField8x2b; h_c03_unary_b4x4b PackedBinaryField4x4b; h_c03_unary_b2x8b PackedBinaryField2x8b; h_c03_unary_b1x16b PackedBinaryField1x16b; h_c03_unary_b32x1b PackedBinaryField32x1b; h_c03_unary_b16x2b PackedBinaryField16x2b; h_c03_unary_b8x4b PackedBinaryField8x4b; h_c03_unary_b4x8b PackedBinaryField4x8b; h_c03_unary_b2x16b PackedBinaryField2x16b; h_c03_unary_b1x32b PackedBinaryField1x32b; h_c03_unary_b64x1b PackedBinaryField64x1b; h_c03_unary_b32x2b PackedBinaryField32x2b; h_c03_unary_b16x4b PackedBinaryField16x4b; h_c03_unary_b8x8b PackedBinaryField8x8b; h_c03_unary_b4x16b PackedBinaryField4x16b; h_c03_unary_b2x32b PackedBinaryField2x32b; h_c03_unary_b1x64b PackedBinaryField1x64b; h_c03_unary_b128x1b PackedBinaryField128x1b; h_c03_unary_b64x2b PackedBinaryField64x2b; h_c03_unary_b32x4b PackedBinaryField32x4b; h_c03_unary_b16x8b PackedBinaryField16x8b; h_c03_unary_b8x16b PackedBinaryField8x16b; h_c03_unary_b4x32b PackedBinaryField4x32b; h_c03_unary_b2x64b PackedBinaryField2x64b; h_c03_unary_b1x128b PackedBinaryField1x128b; h_c03_unary_b256x1b PackedBinaryField256x1b; h_c03_unary_b128x2b PackedBinaryField128x2b; h_c03_unary_b64x4b PackedBinaryField64x4b; h_c03_unary_b32x8b PackedBinaryField32x8b; h_c03_unary_b16x16b PackedBinaryField16x16b; h_c03_unary_b8x32b PackedBinaryField8x32b; h_c03_unary_b4x64b PackedBinaryField4x64b; h_c03_unary_b2x128b PackedBinaryField2x128b; h_c03_unary_b512x1b PackedBinaryField512x1b; h_c03_unary_b256x2b PackedBinaryField256x2b; h_c03_unary_b128x4b PackedBinaryField128x4b; h_c03_unary_b64x8b PackedBinaryField64x8b; h_c03_unary_b32x16b PackedBinaryField32x16b; h_c03_unary_b16x32b PackedBinaryField16x32b; h_c03_unary_b8x64b PackedBinaryField8x64b; h_c03_unary_b4x128b PackedBinaryField4x128b; h_c03_unary_a1x8b PackedAESBinaryField1x8b; h_c03_unary_a2x8b PackedAESBinaryField2x8b; h_c03_unary_a1x16b PackedAESBinaryField1x16b; h_c03_unary_a4x8b PackedAESBinaryField4x8b; h_c03_unary_a2x16b PackedAESBinaryField2x16b; h_c03_unary_a1x32b PackedAESBinaryField1x32b; h_c03_unary_a8x8b PackedAESBinaryField8x8b; h_c03_unary_a4x16b PackedAESBinaryField4x16b; h_c03_unary_a2x32b PackedAESBinaryField2x32b; h_c03_unary_a1x64b PackedAESBinaryField1x64b; h_c03_unary_a16x8b PackedAESBinaryField16x8b; h_c03_unary_a8x16b PackedAESBinaryField8x16b; h_c03_unary_a4x32b PackedAESBinaryField4x32b; h_c03_unary_a2x64b PackedAESBinaryField2x64b; h_c03_unary_a1x128b PackedAESBinaryField1x128b; h_c03_unary_a32x8b PackedAESBinaryField32x8b; h_c03_unary_a16x16b PackedAESBinaryField16x16b; h_c03_unary_a8x32b PackedAESBinaryField8x32b; h_c03_unary_a4x64b PackedAESBinaryField4x64b; h_c03_unary_a2x128b PackedAESBinaryField2x128b; h_c03_unary_a64x8b PackedAESBinaryField64x8b; h_c03_unary_a32x16b PackedAESBinaryField32x16b; h_c03_unary_a16x32b PackedAESBinaryField16x32b; h_c03_unary_a8x64b PackedAESBinaryField8x64b; h_c03_unary_a4x128b PackedAESBinaryField4x128b; h_c03_unary_p1x128b PackedBinaryPolyval1x128b; h_c03_unary_p2x128b PackedBinaryPolyval2x128b; h_c03_unary_p4x128b PackedBinaryPolyval4x128b;}
each!{alpha: h_c03_alpha_b1x8b PackedBinaryField1x8b; h_c03_alpha_b2x8b PackedBinaryField2x8b; h_c03_alpha_b1x16b PackedBinaryField1x16b; h_c03_alpha_b4x8b PackedBinaryField4x8b; h_c03_alpha_b2x16b PackedBinaryField2x16b; h_c03_alpha_b1x32b PackedBinaryField1x32b; h_c03_alpha_b8x8b PackedBinaryField8x8b; h_c03_alpha_b4x16b PackedBinaryField4x16b; h_c03_alpha_b2x32b PackedBinaryField2x32b; h_c03_alpha_b1x64b PackedBinaryField1x64b; h_c03_alpha_b16x8b PackedBinaryField16x8b; h_c03_alpha_b8x16b PackedBinaryField8x16b; h_c03_alpha_b4x32b PackedBinaryField4x32b; h_c03_alpha_b2x64b PackedBinaryField2x64b; h_c03_alpha_b1x128b PackedBinaryField1x128b; h_c03_alpha_a1x8b PackedAESBinaryField1x8b; h_c03_alpha_a2x8b PackedAESBinaryField2x8b; h_c03_alpha_a1x16b PackedAESBinaryField1x16b; h_c03_alpha_a4x8b PackedAESBinaryField4x8b; h_c03_alpha_a2x16b PackedAESBinaryField2x16b; h_c03_alpha_a1x32b PackedAESBinaryField1x32b; h_c03_alpha_a8x8b PackedAESBinaryField8x8b; h_c03_alpha_a4x16b PackedAESBinaryField4x16b; h_c03_alpha_a2x32b PackedAESBinaryField2x32b; h_c03_alpha_a1x64b PackedAESBinaryField1x64b; h_c03_alpha_a16x8b PackedAESBinaryField16x8b; h_c03_alpha_a8x16b PackedAESBinaryField8x16b; h_c03_alpha_a4x32b PackedAESBinaryField4x32b; h_c03_alpha_a2x64b PackedAESBinaryField2x64b; h_c03_alpha_a1x128b PackedAESBinaryField1x128b;}
each!{invert: h_c03_invert_b8x1b PackedBinaryField8x1b; h_c03_invert_b4x2b PackedBinaryField4x2b; h_c03_invert_b2x4b PackedBinaryField2x4b; h_c03_invert_b1x8b PackedBinaryField1x8b; h_c03_invert_b16x1b PackedBinaryField16x1b; h_c03_invert_b8x2b PackedBinaryField8x2b; h_c03_invert_b4x4b PackedBinaryField4x4b; h_c03_invert_b2x8b PackedBinaryField2x8b; h_c03_invert_b1x16b PackedBinaryField1x16b; h_c03_invert_b32x1b PackedBinaryField32x1b; h_c03_invert_b16x2b PackedBinaryField16x2b; h_c03_invert_b8x4b PackedBinaryField8x4b; h_c03_invert_b4x8b PackedBinaryField4x8b; h_c03_invert_b2x16b PackedBinaryField2x16b; h_c03_invert_b64x1b PackedBinaryField64x1b; h_c03_invert_b32x2b PackedBinaryField32x2b; h_c03_invert_b16x4b PackedBinaryField16x4b; h_c03_invert_b8x8b PackedBinaryField8x8b; h_c03_invert_b4x16b PackedBinaryField4x16b; h_c03_invert_b128x1b PackedBinaryField128x1b; h_c03_invert_b64x2b PackedBinaryField64x2b; h_c03_invert_b32x4b PackedBinaryField32x4b; h_c03_invert_b16x8b PackedBinaryField16x8b; h_c03_invert_b8x16b PackedBinaryField8x16b; h_c03_invert_b256x1b PackedBinaryField256x1b; h_c03_invert_b128x2b PackedBinaryField128x2b; h_c03_invert_b64x4b PackedBinaryField64x4b; h_c03_invert_b32x8b PackedBinaryField32x8b; h_c03_invert_b16x16b PackedBinaryField16x16b; h_c03_invert_b512x1b PackedBinaryField512x1b; h_c03_invert_b256x2b PackedBinaryField256x2b; h_c03_invert_b128x4b PackedBinaryField128x4b; h_c03_invert_b64x8b PackedBinaryField64x8b; h_c03_invert_b32x16b_thorough PackedBinaryField32x16b; h_c03_invert_a1x8b PackedAESBinaryField1x8b; h_c03_invert_a2x8b PackedAESBinaryField2x8b; h_c03_invert_a1x16b PackedAESBinaryField1x16b; h_c03_invert_a4x8b PackedAESBinaryField4x8b; h_c03_invert_a2x16b PackedAESBinaryField2x16b; h_c03_invert_a8x8b PackedAESBinaryField8x8b; h_c03_invert_a4x16b PackedAESBinaryField4x16b; h_c03_invert_a16x8b PackedAESBinaryField16x8b; h_c03_invert_a8x16b PackedAESBinaryField8x16b; h_c03_invert_a32x8b PackedAESBinaryField32x8b; h_c03_invert_a16x16b PackedAESBinaryField16x16b; h_c03_invert_a64x8b PackedAESBinaryField64x8b; h_c03_invert_a32x16b_thorough PackedAESBinaryField32x16b;}
each!{layout: h_c04_layout_b8x1b PackedBinaryField8x1b; h_c04_layout_b4x2b PackedBinaryField4x2b; h_c04_layout_b2x4b PackedBinaryField2x4b; h_c04_layout_b1x8b PackedBinaryField1x8b; h_c04_layout_b16x1b PackedBinaryField16x1b; h_c04_layout_b8x2b PackedBinaryField8x2b; h_c04_layout_b4x4b PackedBinaryField4x4b; h_c04_layout_b2x8b PackedBinaryField2x8b; h_c04_layout_b1x16b PackedBinaryField1x16b; h_c04_layout_b32x1b PackedBinaryField32x1b; h_c04_layout_b16x2b PackedBinaryField16x2b; h_c04_layout_b8x4b PackedBinaryField8x4b; h_c04_layout_b4x8b PackedBinaryField4x8b; h_c04_layout_b2x16b PackedBinaryField2x16b; h_c04_layout_b1x32b PackedBinaryField1x32b; h_c04_layout_b64x1b PackedBinaryField64x1b; h_c04_layout_b32x2b PackedBinaryField32x2b; h_c04_layout_b16x4b PackedBinaryField16x4b; h_c04_layout_b8x8b PackedBinaryField8x8b; h_c04_layout_b4x16b PackedBinaryField4x16b; h_c04_layout_b2x32b PackedBinaryField2x32b; h_c04_layout_b1x64b PackedBinaryField1x64b; h_c04_layout_b128x1b PackedBinaryField128x1b; h_c04_layout_b64x2b PackedBinaryField64x2b; h_c04_layout_b32x4b PackedBinaryField32x4b; h_c04_layout_b16x8b PackedBinaryField16x8b; h_c04_layout_b8x16b PackedBinaryField8x16b; h_c04_layout_b4x32b PackedBinaryField4x32b; h_c04_layout_b2x64b PackedBinaryField2x64b; h_c04_layout_b1x128b PackedBinaryField1x128b; h_c04_layout_b256x1b PackedBinaryField256x1b; h_c04_layout_b128x2b PackedBinaryField128x2b; h_c04_layout_b64x4b PackedBinaryField64x4b; h_c04_layout_b32x8b PackedBinaryField32x8b; h_c04_layout_b16x16b PackedBinaryField16x16b; h_c04_layout_b8x32b PackedBinaryField8x32b; h_c04_layout_b4x64b PackedBinaryField4x64b; h_c04_layout_b2x128b PackedBinaryField2x128b; h_c04_layout_b512x1b PackedBinaryField512x1b; h_c04_layout_b256x2b PackedBinaryField256x2b; h_c04_layout_b128x4b PackedBinaryField128x4b; h_c04_layout_b64x8b PackedBinaryField64x8b; h_c04_layout_b32x16b PackedBinaryField32x16b; h_c04_layout_b16x32b PackedBinaryField16x32b; h_c04_layout_b8x64b PackedBinaryField8x64b; h_c04_layout_b4x128b PackedBinaryField4x128b; h_c04_layout_a1x8b PackedAESBinaryField1x8b; h_c04_layout_a2x8b PackedAESBinaryField2x8b; h_c04_layout_a1x16b PackedAESBinaryField1x16b; h_c04_layout_a4x8b PackedAESBinaryField4x8b; h_c04_layout_a2x16b PackedAESBinaryField2x16b; h_c04_layout_a1x32b PackedAESBinaryField1x32b; h_c04_layout_a8x8b PackedAESBinaryField8x8b; h_c04_layout_a4x16b PackedAESBinaryField4x16b; h_c04_layout_a2x32b PackedAESBinaryField2x32b; h_c04_layout_a1x64b PackedAESBinaryField1x64b; h_c04_layout_a16x8b PackedAESBinaryField16x8b; h_c04_layout_a8x16b PackedAESBinaryField8x16b; h_c04_layout_a4x32b PackedAESBinaryField4x32b; h_c04_layout_a2x64b PackedAESBinaryField2x64b; h_c04_layout_a1x128b PackedAESBinaryField1x128b; h_c04_layout_a32x8b PackedAESBinaryField32x8b; h_c04_layout_a16x16b PackedAESBinaryField16x16b; h_c04_layout_a8x32b PackedAESBinaryField8x32b; h_c04_layout_a4x64b PackedAESBinaryField4x64b; h_c04_layout_a2x128b PackedAESBinaryField2x128b; h_c04_layout_a64x8b PackedAESBinaryField64x8b; h_c04_layout_a32x16b PackedAESBinaryField32x16b; h_c04_layout_a16x32b PackedAESBinaryField16x32b; h_c04_layout_a8x64b PackedAESBinaryField8x64b; h_c04_layout_a4x128b PackedAESBinaryField4x128b;}
each!{structure: h_c04_structure_b8x1b PackedBinaryField8x1b; h_c04_structure_b4x2b PackedBinaryField4x2b; h_c04_structure_b2x4b PackedBinaryField2x4b; h_c04_structure_b1x8b PackedBinaryField1x8b; h_c04_structure_b16x1b PackedBinaryField16x1b; h_c04_structure_b8x2b PackedBinaryField8x2b; h_c04_structure_b4x4b PackedBinaryField4x4b; h_c04_structure_b2x8b PackedBinaryField2x8b; h_c04_structure_b1x16b PackedBinaryField1x16b; h_c04_structure_b32x1b PackedBinaryField32x1b; h_c04_structure_b16x2b PackedBinaryField16x2b; h_c04_structure_b8x4b PackedBinaryField8x4b; h_c04_structure_b4x8b PackedBinaryField4x8b; h_c04_structure_b2x16b PackedBinaryField2x16b; h_c04_structure_b1x32b PackedBinaryField1x32b; h_c04_structure_b64x1b PackedBinaryField64x1b; h_c04_structure_b32x2b PackedBinaryField32x2b; h_c04_structure_b16x4b PackedBinaryField16x4b; h_c04_structure_b8x8b PackedBinaryField8x8b; h_c04_structure_b4x16b PackedBinaryField4x16b; h_c04_structure_b2x32b PackedBinaryField2x32b; h_c04_structure_b1x64b PackedBinaryField1x64b; h_c04_structure_b128x1b PackedBinaryField128x1b; h_c04_structure_b64x2b PackedBinaryField64x2b; h_c04_structure_b32x4b PackedBinaryField32x4b; h_c04_structure_b16x8b PackedBinaryField16x8b; h_c04_structure_b8x16b PackedBinaryField8x16b; h_c04_structure_b4x32b PackedBinaryField4x32b; h_c04_structure_b2x64b PackedBinaryField2x64b; h_c04_structure_b1x128b PackedBinaryField1x128b; h_c04_structure_b128x2b PackedBinaryField128x2b; h_c04_structure_b64x4b PackedBinaryField64x4b; h_c04_structure_b32x8b PackedBinaryField32x8b; h_c04_structure_b16x16b PackedBinaryField16x16b; h_c04_structure_b8x32b PackedBinaryField8x32b; h_c04_structure_b4x64b PackedBinaryField4x64b; h_c04_structure_b2x128b PackedBinaryField2x128b; h_c04_structure_b128x4b PackedBinaryField128x4b; h_c04_structure_b64x8b PackedBinaryField64x8b; h_c04_structure_b32x16b PackedBinaryField32x16b; h_c04_structure_b16x32b PackedBinaryField16x32b; h_c04_structure_b8x64b PackedBinaryField8x64b; h_c04_structure_b4x128b PackedBinaryField4x128b; h_c04_structure_a1x8b PackedAESBinaryField1x8b; h_c04_structure_a2x8b PackedAESBinaryField2x8b; h_c04_structure_a1x16b PackedAESBinaryField1x16b; h_c04_structure_a4x8b PackedAESBinaryField4x8b; h_c04_structure_a2x16b PackedAESBinaryField2x16b; h_c04_structure_a1x32b PackedAESBinaryField1x32b; h_c04_structure_a8x8b PackedAESBinaryField8x8b; h_c04_structure_a4x16b PackedAESBinaryField4x16b; h_c04_structure_a2x32b PackedAESBinaryField2x32b; h_c04_structure_a1x64b PackedAESBinaryField1x64b; h_c04_structure_a16x8b PackedAESBinaryField16x8b; h_c04_structure_a8x16b PackedAESBinaryField8x16b; h_c04_structure_a4x32b PackedAESBinaryField4x32b; h_c04_structure_a2x64b PackedAESBinaryField2x64b; h_c04_structure_a1x128b PackedAESBinaryField1x128b; h_c04_structure_a32x8b PackedAESBinaryField32x8b; h_c04_structure_a16x16b PackedAESBinaryField16x16b; h_c04_structure_a8x32b PackedAESBinaryField8x32b; h_c04_structure_a4x64b PackedAESBinaryField4x64b; h_c04_structure_a2x128b PackedAESBinaryField2x128b; h_c04_structure_a64x8b PackedAESBinaryField64x8b; h_c04_structure_a32x16b PackedAESBinaryField32x16b; h_c04_structure_a16x32b PackedAESBinaryField16x32b; h_c04_structure_a8x64b PackedAESBinaryField8x64b; h_c04_structure_a4x128b PackedAESBinaryField4x128b; h_c04_structure_p1x128b PackedBinaryPolyval1x128b; h_c04_structure_p2x128b PackedBinaryPolyval2x128b; h_c04_structure_p4x128b PackedBinaryPolyval4x128b;}
each!{shuffle: h_c04_shuffle_b8x1b PackedBinaryField8x1b; h_c04_shuffle_b4x2b PackedBinaryField4x2b; h_c04_shuffle_b2x4b PackedBinaryField2x4b; h_c04_shuffle_b1x8b PackedBinaryField1x8b; h_c04_shuffle_b16x1b PackedBinaryField16x1b; h_c04_shuffle_b8x2b PackedBinaryField8x2b; h_c04_shuffle_b4x4b PackedBinaryField4x4b; h_c04_shuffle_b2x8b PackedBinaryField2x8b; h_c04_shuffle_b1x16b PackedBinaryField1x16b; h_c04_shuffle_b32x1b PackedBinaryField32x1b; h_c04_shuffle_b16x2b PackedBinaryField16x2b; h_c04_shuffle_b8x4b PackedBinaryField8x4b; h_c04_shuffle_b4x8b PackedBinaryField4x8b; h_c04_shuffle_b2x16b PackedBinaryField2x16b; h_c04_shuffle_b1x32b PackedBinaryField1x32b; h_c04_shuffle_b64x1b PackedBinaryField64x1b; h_c04_shuffle_b32x2b PackedBinaryField32x2b; h_c04_shuffle_b16x4b PackedBinaryField16x4b; h_c04_shuffle_b8x8b PackedBinaryField8x8b; h_c04_shuffle_b4x16b PackedBinaryField4x16b; h_c04_shuffle_b2x32b PackedBinaryField2x32b; h_c04_shuffle_b1x64b PackedBinaryField1x64b; h_c04_shuffle_b128x1b PackedBinaryField128x1b; h_c04_shuffle_b64x2b PackedBinaryField64x2b; h_c04_shuffle_b32x4b PackedBinaryField32x4b; h_c04_shuffle_b16x8b PackedBinaryField16x8b; h_c04_shuffle_b8x16b PackedBinaryField8x16b; h_c04_shuffle_b4x32b PackedBinaryField4x32b; h_c04_shuffle_b2x64b PackedBinaryField2x64b; h_c04_shuffle_b1x128b PackedBinaryField1x128b; h_c04_shuffle_b256x1b PackedBinaryField256x1b; h_c04_shuffle_b128x2b PackedBinaryField128x2b; h_c04_shuffle_b64x4b PackedBinaryField64x4b; h_c04_shuffle_b32x8b PackedBinaryField32x8b; h_c04_shuffle_b16x16b PackedBinaryField16x16b; h_c04_shuffle_b8x32b PackedBinaryField8x32b; h_c04_shuffle_b4x64b PackedBinaryField4x64b; h_c04_shuffle_b2x128b PackedBinaryField2x128b; h_c04_shuffle_b512x1b PackedBinaryField512x1b; h_c04_shuffle_b256x2b PackedBinaryField256x2b; h_c04_shuffle_b128x4b PackedBinaryField128x4b; h_c04_shuffle_b64x8b PackedBinaryField64x8b; h_c04_shuffle_b32x16b PackedBinaryField32x16b; h_c04_shuffle_b16x32b PackedBinaryField16x32b; h_c04_shuffle_b8x64b PackedBinaryField8x64b; h_c04_shuffle_b4x128b PackedBinaryField4x128b; h_c04_shuffle_a1x8b PackedAESBinaryField1x8b; h_c04_shuffle_a2x8b PackedAESBinaryField2x8b; h_c04_shuffle_a1x16b PackedAESBinaryField1x16b; h_c04_shuffle_a4x8b PackedAESBinaryField4x8b; h_c04_shuffle_a2x16b PackedAESBinaryField2x16b; h_c04_shuffle_a1x32b PackedAESBinaryField1x32b; h_c04_shuffle_a8x8b PackedAESBinaryField8x8b; h_c04_shuffle_a4x16b PackedAESBinaryField4x16b; h_c04_shuffle_a2x32b PackedAESBinaryField2x32b; h_c04_shuffle_a1x64b PackedAESBinaryField1x64b; h_c04_shuffle_a16x8b PackedAESBinaryField16x8b; h_c04_shuffle_a8x16b PackedAESBinaryField8x16b; h_c04_shuffle_a4x32b PackedAESBinaryField4x32b; h_c04_shuffle_a2x64b PackedAESBinaryField2x64b; h_c04_shuffle_a1x128b PackedAESBinaryField1x128b; h_c04_shuffle_a32x8b PackedAESBinaryField32x8b; h_c04_shuffle_a16x16b PackedAESBinaryField16x16b; h_c04_shuffle_a8x32b PackedAESBinaryField8x32b; h_c04_shuffle_a4x64b PackedAESBinaryField4x64b; h_c04_shuffle_a2x128b PackedAESBinaryField2x128b; h_c04_shuffle_a64x8b PackedAESBinaryField64x8b; h_c04_shuffle_a32x16b PackedAESBinaryField32x16b; h_c04_shuffle_a16x32b PackedAESBinaryField16x32b; h_c04_shuffle_a8x64b PackedAESBinaryField8x64b; h_c04_shuffle_a4x128b PackedAESBinaryField4x128b; h_c04_shuffle_p1x128b PackedBinaryPolyval1x128b; h_c04_shuffle_p2x128b PackedBinaryPolyval2x128b; h_c04_shuffle_p4x128b PackedBinaryPolyval4x128b;}
each!{spread: h_c04_spread_b8x1b PackedBinaryField8x1b; h_c04_spread_b4x2b PackedBinaryField4x2b; h_c04_spread_b2x4b PackedBinaryField2x4b; h_c04_spread_b1x8b PackedBinaryField1x8b; h_c04_spread_b16x1b PackedBinaryField16x1b; h_c04_spread_b8x2b PackedBinaryField8x2b; h_c04_spread_b4x4b PackedBinaryField4x4b; h_c04_spread_b2x8b PackedBinaryField2x8b; h_c04_spread_b1x16b PackedBinaryField1x16b; h_c04_spread_b32x1b PackedBinaryField32x1b; h_c04_spread_b16x2b PackedBinaryField16x2b; h_c04_spread_b8x4b PackedBinaryField8x4b; h_c04_spread_b4x8b PackedBinaryField4x8b; h_c04_spread_b2x16b PackedBinaryField2x16b; h_c04_spread_b1x32b PackedBinaryField1x32b; h_c04_spread_b64x1b PackedBinaryField64x1b; h_c04_spread_b32x2b PackedBinaryField32x2b; h_c04_spread_b16x4b PackedBinaryField16x4b; h_c04_spread_b8x8b PackedBinaryField8x8b; h_c04_spread_b4x16b PackedBinaryField4x16b; h_c04_spread_b2x32b PackedBinaryField2x32b; h_c04_spread_b1x64b PackedBinaryField1x64b; h_c04_spread_b128x1b PackedBinaryField128x1b; h_c04_spread_b64x2b PackedBinaryField64x2b; h_c04_spread_b32x4b PackedBinaryField32x4b; h_c04_spread_b16x8b PackedBinaryField16x8b; h_c04_spread_b8x16b PackedBinaryField8x16b; h_c04_spread_b4x32b PackedBinaryField4x32b; h_c04_spread_b2x64b PackedBinaryField2x64b; h_c04_spread_b1x128b PackedBinaryField1x128b; h_c04_spread_b128x2b PackedBinaryField128x2b; h_c04_spread_b64x4b PackedBinaryField64x4b; h_c04_spread_b32x8b PackedBinaryField32x8b; h_c04_spread_b16x16b PackedBinaryField16x16b; h_c04_spread_b8x32b PackedBinaryField8x32b; h_c04_spread_b4x64b PackedBinaryField4x64b; h_c04_spread_b2x128b PackedBinaryField2x128b; h_c04_spread_b128x4b PackedBinaryField128x4b; h_c04_spread_b64x8b PackedBinaryField64x8b; h_c04_spread_b32x16b PackedBinaryField32x16b; h_c04_spread_b16x32b PackedBinaryField16x32b; h_c04_spread_b8x64b PackedBinaryField8x64b; h_c04_spread_b4x128b PackedBinaryField4x128b; h_c04_spread_a1x8b PackedAESBinaryField1x8b; h_c04_spread_a2x8b PackedAESBinaryField2x8b; h_c04_spread_a1x16b PackedAESBinaryField1x16b; h_c04_spread_a4x8b PackedAESBinaryField4x8b; h_c04_spread_a2x16b PackedAESBinaryField2x16b; h_c04_spread_a1x32b PackedAESBinaryField1x32b; h_c04_spread_a8x8b PackedAESBinaryField8x8b; h_c04_spread_a4x16b PackedAESBinaryField4x16b; h_c04_spread_a2x32b PackedAESBinaryField2x32b; h_c04_spread_a1x64b PackedAESBinaryField1x64b; h_c04_spread_a16x8b PackedAESBinaryField16x8b; h_c04_spread_a8x16b PackedAESBinaryField8x16b; h_c04_spread_a4x32b PackedAESBinaryField4x32b; h_c04_spread_a2x64b PackedAESBinaryField2x64b; h_c04_spread_a1x128b PackedAESBinaryField1x128b; h_c04_spread_a32x8b PackedAESBinaryField32x8b; h_c04_spread_a16x16b PackedAESBinaryField16x16b; h_c04_spread_a8x32b PackedAESBinaryField8x32b; h_c04_spread_a4x64b PackedAESBinaryField4x64b; h_c04_spread_a2x128b PackedAESBinaryField2x128b; h_c04_spread_a64x8b PackedAESBinaryField64x8b; h_c04_spread_a32x16b PackedAESBinaryField32x16b; h_c04_spread_a16x32b PackedAESBinaryField16x32b; h_c04_spread_a8x64b PackedAESBinaryField8x64b; h_c04_spread_a4x128b PackedAESBinaryField4x128b; h_c04_spread_p1x128b PackedBinaryPolyval1x128b; h_c04_spread_p2x128b PackedBinaryPolyval2x128b; h_c04_spread_p4x128b PackedBinaryPolyval4x128b;}
each!{slices: h_c04_slices_b8x1b PackedBinaryField8x1b; h_c04_slices_b4x2b PackedBinaryField4x2b; h_c04_slices_b2x4b PackedBinaryField2x4b; h_c04_slices_b1x8b PackedBinaryField1x8b; h_c04_slices_b16x1b PackedBinaryField16x1b; h_c04_slices_b8x2b PackedBinaryField8x2b; h_c04_slices_b4x4b PackedBinaryField4x4b; h_c04_slices_b2x8b PackedBinaryField2x8b; h_c04_slices_b1x16b PackedBinaryField1x16b; h_c04_slices_b32x1b PackedBinaryField32x1b; h_c04_slices_b16x2b PackedBinaryField16x2b; h_c04_slices_b8x4b PackedBinaryField8x4b; h_c04_slices_b4x8b PackedBinaryField4x8b; h_c04_slices_b2x16b PackedBinaryField2x16b; h_c04_slices_b1x32b PackedBinaryField1x32b; h_c04_slices_b64x1b PackedBinaryField64x1b; h_c04_slices_b32x2b PackedBinaryField32x2b; h_c04_slices_b16x4b PackedBinaryField16x4b; h_c04_slices_b8x8b PackedBinaryField8x8b; h_c04_slices_b4x16b PackedBinaryField4x16b; h_c04_slices_b2x32b PackedBinaryField2x32b; h_c04_slices_b1x64b PackedBinaryField1x64b; h_c04_slices_b64x2b PackedBinaryField64x2b; h_c04_slices_b32x4b PackedBinaryField32x4b; h_c04_slices_b16x8b PackedBinaryField16x8b; h_c04_slices_b8x16b PackedBinaryField8x16b; h_c04_slices_b4x32b PackedBinaryField4x32b; h_c04_slices_b2x64b PackedBinaryField2x64b; h_c04_slices_b1x128b PackedBinaryField1x128b; h_c04_slices_b64x4b PackedBinaryField64x4b; h_c04_slices_b32x8b PackedBinaryField32x8b; h_c04_slices_b16x16b PackedBinaryField16x16b; h_c04_slices_b8x32b PackedBinaryField8x32b; h_c04_slices_b4x64b PackedBinaryField4x64b; h_c04_slices_b2x128b PackedBinaryField2x128b; h_c04_slices_b64x8b PackedBinaryField64x8b; h_c04_slices_b32x16b PackedBinaryField32x16b; h_c04_slices_b16x32b PackedBinaryField16x32b; h_c04_slices_b8x64b PackedBinaryField8x64b; h_c04_slices_b4x128b PackedBinaryField4x128b; h_c04_slices_a1x8b PackedAESBinaryField1x8b; h_c04_slices_a2x8b PackedAESBinaryField2x8b; h_c04_slices_a1x16b PackedAESBinaryField1x16b; h_c04_slices_a4x8b PackedAESBinaryField4x8b; h_c04_slices_a2x16b PackedAESBinaryField2x16b; h_c04_slices_a1x32b PackedAESBinaryField1x32b; h_c04_slices_a8x8b PackedAESBinaryField8x8b; h_c04_slices_a4x16b PackedAESBinaryField4x16b; h_c04_slices_a2x32b PackedAESBinaryField2x32b; h_c04_slices_a1x64b PackedAESBinaryField1x64b; h_c04_slices_a16x8b PackedAESBinaryField16x8b; h_c04_slices_a8x16b PackedAESBinaryField8x16b; h_c04_slices_a4x32b PackedAESBinaryField4x32b; h_c04_slices_a2x64b PackedAESBinaryField2x64b; h_c04_slices_a1x128b PackedAESBinaryField1x128b; h_c04_slices_a32x8b PackedAESBinaryField32x8b; h_c04_slices_a16x16b PackedAESBinaryField16x16b; h_c04_slices_a8x32b PackedAESBinaryField8x32b; h_c04_slices_a4x64b PackedAESBinaryField4x64b; h_c04_slices_a2x128b PackedAESBinaryField2x128b; h_c04_slices_a64x8b PackedAESBinaryField64x8b; h_c04_slices_a32x16b PackedAESBinaryField32x16b; h_c04_slices_a16x32b PackedAESBinaryField16x32b; h_c04_slices_a8x64b PackedAESBinaryField8x64b; h_c04_slices_a4x128b PackedAESBinaryField4x128b; h_c04_slices_p1x128b PackedBinaryPolyval1x128b; h_c04_slices_p2x128b PackedBinaryPolyval2x128b; h_c04_slices_p4x128b PackedBinaryPolyval4x128b;}
each!{transpose: h_c04_transpose_b32x1b PackedBinaryField32x1b; h_c04_transpose_b16x2b PackedBinaryField16x2b; h_c04_transpose_b8x4b PackedBinaryField8x4b; h_c04_transpose_b4x8b PackedBinaryField4x8b; h_c04_transpose_b2x16b PackedBinaryField2x16b; h_c04_transpose_b1x32b PackedBinaryField1x32b; h_c04_transpose_b128x1b PackedBinaryField128x1b; h_c04_transpose_b64x2b PackedBinaryField64x2b; h_c04_transpose_b32x4b PackedBinaryField32x4b; h_c04_transpose_b16x8b PackedBinaryField16x8b; h_c04_transpose_b8x16b PackedBinaryField8x16b; h_c04_transpose_b4x32b PackedBinaryField4x32b; h_c04_transpose_b2x64b PackedBinaryField2x64b; h_c04_transpose_b1x128b PackedBinaryField1x128b; h_c04_transpose_b256x1b PackedBinaryField256x1b; h_c04_transpose_b128x2b PackedBinaryField128x2b; h_c04_transpose_b64x4b PackedBinaryField64x4b; h_c04_transpose_b32x8b PackedBinaryField32x8b; h_c04_transpose_b16x16b PackedBinaryField16x16b; h_c04_transpose_b8x32b PackedBinaryField8x32b; h_c04_transpose_b4x64b PackedBinaryField4x64b; h_c04_transpose_b2x128b PackedBinaryField2x128b; h_c04_transpose_a4x8b PackedAESBinaryField4x8b; h_c04_transpose_a2x16b PackedAESBinaryField2x16b; h_c04_transpose_a1x32b PackedAESBinaryField1x32b; h_c04_transpose_a16x8b PackedAESBinaryField16x8b; h_c04_transpose_a8x16b PackedAESBinaryField8x16b; h_c04_transpose_a4x32b PackedAESBinaryField4x32b; h_c04_transpose_a2x64b PackedAESBinaryField2x64b; h_c04_transpose_a1x128b PackedAESBinaryField1x128b; h_c04_transpose_a32x8b PackedAESBinaryField32x8b; h_c04_transpose_a16x16b PackedAESBinaryField16x16b; h_c04_transpose_a8x32b PackedAESBinaryField8x32b; h_c04_transpose_a4x64b PackedAESBinaryField4x64b; h_c04_transpose_a2x128b PackedAESBinaryField2x128b; h_c04_transpose_p1x128b PackedBinaryPolyval1x128b; h_c04_transpose_p2x128b PackedBinaryPolyval2x128b;}
each!{arith: h_c03_arith_s16x128b ByteSlicedAES16x128b; h_c03_arith_s16x64b ByteSlicedAES16x64b; h_c03_arith_s2x16x64b_thorough ByteSlicedAES2x16x64b; h_c03_arith_s16x32b ByteSlicedAES16x32b; h_c03_arith_s4x16x32b_thorough ByteSlicedAES4x16x32b; h_c03_arith_s16x16b ByteSlicedAES16x16b; h_c03_arith_s8x16x16b ByteSlicedAES8x16x16b; h_c03_arith_s16x8b ByteSlicedAES16x8b; h_c03_arith_s16x16x8b ByteSlicedAES16x16x8b;}
each!{unary: h_c03_unary_s16x128b ByteSlicedAES16x128b; h_c03_unary_s16x64b ByteSlicedAES16x64b; h_c03_unary_s2x16x64b_thorough ByteSlicedAES2x16x64b; h_c03_unary_s16x32b ByteSlicedAES16x32b; h_c03_unary_s4x16x32b_thorough ByteSlicedAES4x16x32b; h_c03_unary_s16x16b ByteSlicedAES16x16b; h_c03_unary_s8x16x16b ByteSlicedAES8x16x16b; h_c03_unary_s16x8b ByteSlicedAES16x8b; h_c03_unary_s16x16x8b ByteSlicedAES16x16x8b;}
each!{structure: h_c04_structure_s16x128b ByteSlicedAES16x128b; h_c04_structure_s16x64b ByteSlicedAES16x64b; h_c04_structure_s2x16x64b ByteSlicedAES2x16x64b; h_c04_structure_s16x32b ByteSlicedAES16x32b; h_c04_structure_s4x16x32b ByteSlicedAES4x16x32b; h_c04_structure_s16x16b ByteSlicedAES16x16b; h_c04_structure_s8x16x16b ByteSlicedAES8x16x16b; h_c04_structure_s16x8b ByteSlicedAES16x8b; h_c04_structure_s16x16x8b ByteSlicedAES16x16x8b;}
each!{shuffle: h_c04_shuffle_s16x128b ByteSlicedAES16x128b; h_c04_shuffle_s16x64b ByteSlicedAES16x64b; h_c04_shuffle_s2x16x64b ByteSlicedAES2x16x64b; h_c04_shuffle_s16x32b ByteSlicedAES16x32b; h_c04_shuffle_s4x16x32b ByteSlicedAES4x16x32b; h_c04_shuffle_s16x16b ByteSlicedAES16x16b; h_c04_shuffle_s8x16x16b ByteSlicedAES8x16x16b; h_c04_shuffle_s16x8b ByteSlicedAES16x8b; h_c04_shuffle_s16x16x8b ByteSlicedAES16x16x8b;}
each!{spread: h_c04_spread_s16x128b ByteSlicedAES16x128b; h_c04_spread_s16x64b ByteSlicedAES16x64b; h_c04_spread_s2x16x64b ByteSlicedAES2x16x64b; h_c04_spread_s16x32b ByteSlicedAES16x32b; h_c04_spread_s4x16x32b ByteSlicedAES4x16x32b; h_c04_spread_s16x16b ByteSlicedAES16x16b; h_c04_spread_s8x16x16b ByteSlicedAES8x16x16b; h_c04_spread_s16x8b ByteSlicedAES16x8b; h_c04_spread_s16x16x8b ByteSlicedAES16x16x8b;}
each!{invert: h_c03_invert_s16x16b ByteSlicedAES16x16b; h_c03_invert_s8x16x16b_thorough ByteSlicedAES8x16x16b; h_c03_invert_s16x8b ByteSlicedAES16x8b; h_c03_invert_s16x16x8b ByteSlicedAES16x16x8b;}
each!{structure: h_c04_structure_s32x128b ByteSlicedAES32x128b; h_c04_structure_s32x64b ByteSlicedAES32x64b; h_c04_structure_s2x32x64b ByteSlicedAES2x32x64b; h_c04_structure_s32x32b ByteSlicedAES32x32b; h_c04_structure_s4x32x32b ByteSlicedAES4x32x32b; h_c04_structure_s32x16b ByteSlicedAES32x16b; h_c04_structure_s8x32x16b ByteSlicedAES8x32x16b; h_c04_structure_s32x8b ByteSlicedAES32x8b; h_c04_structure_s16x32x8b ByteSlicedAES16x32x8b; h_c04_structure_s16x128x1b ByteSliced16x128x1b; h_c04_structure_s8x128x1b ByteSliced8x128x1b; h_c04_structure_s4x128x1b ByteSliced4x128x1b; h_c04_structure_s2x128x1b ByteSliced2x128x1b; h_c04_structure_s1x128x1b ByteSliced1x128x1b; h_c04_structure_s16x256x1b ByteSliced16x256x1b; h_c04_structure_s8x256x1b ByteSliced8x256x1b; h_c04_structure_s4x256x1b ByteSliced4x256x1b; h_c04_structure_s2x256x1b ByteSliced2x256x1b; h_c04_structure_s1x256x1b ByteSliced1x256x1b;}
each!{shuffle: h_c04_shuffle_s32x128b ByteSlicedAES32x128b; h_c04_shuffle_s32x64b ByteSlicedAES32x64b; h_c04_shuffle_s2x32x64b ByteSlicedAES2x32x64b; h_c04_shuffle_s32x32b ByteSlicedAES32x32b; h_c04_shuffle_s4x32x32b ByteSlicedAES4x32x32b; h_c04_shuffle_s32x16b ByteSlicedAES32x16b; h_c04_shuffle_s8x32x16b ByteSlicedAES8x32x16b; h_c04_shuffle_s32x8b ByteSlicedAES32x8b; h_c04_shuffle_s16x32x8b ByteSlicedAES16x32x8b; h_c04_shuffle_s16x128x1b ByteSliced16x128x1b; h_c04_shuffle_s8x128x1b ByteSliced8x128x1b; h_c04_shuffle_s4x128x1b ByteSliced4x128x1b; h_c04_shuffle_s2x128x1b ByteSliced2x128x1b; h_c04_shuffle_s1x128x1b ByteSliced1x128x1b; h_c04_shuffle_s16x256x1b ByteSliced16x256x1b; h_c04_shuffle_s8x256x1b ByteSliced8x256x1b; h_c04_shuffle_s4x256x1b ByteSliced4x256x1b; h_c04_shuffle_s2x256x1b ByteSliced2x256x1b; h_c04_shuffle_s1x256x1b ByteSliced1x256x1b;}
each!{spread: h_c04_spread_s32x128b ByteSlicedAES32x128b; h_c04_spread_s32x64b ByteSlicedAES32x64b; h_c04_spread_s2x32x64b ByteSlicedAES2x32x64b; h_c04_spread_s32x32b ByteSlicedAES32x32b; h_c04_spread_s4x32x32b ByteSlicedAES4x32x32b; h_c04_spread_s32x16b ByteSlicedAES32x16b; h_c04_spread_s8x32x16b ByteSlicedAES8x32x16b; h_c04_spread_s32x8b ByteSlicedAES32x8b; h_c04_spread_s16x32x8b ByteSlicedAES16x32x8b; h_c04_spread_s16x128x1b ByteSliced16x128x1b; h_c04_spread_s8x128x1b ByteSliced8x128x1b; h_c04_spread_s4x128x1b ByteSliced4x128x1b; h_c04_spread_s2x128x1b ByteSliced2x128x1b; h_c04_spread_s1x128x1b ByteSliced1x128x1b; h_c04_spread_s16x256x1b ByteSliced16x256x1b; h_c04_spread_s8x256x1b ByteSliced8x256x1b; h_c04_spread_s4x256x1b ByteSliced4x256x1b; h_c04_spread_s2x256x1b ByteSliced2x256x1b; h_c04_spread_s1x256x1b ByteSliced1x256x1b;}
each!{arith: h_c03_arith_s32x128b_thorough ByteSlicedAES32x128b; h_c03_arith_s32x64b_thorough ByteSlicedAES32x64b; h_c03_arith_s2x32x64b_thorough ByteSlicedAES2x32x64b; h_c03_arith_s32x32b_thorough ByteSlicedAES32x32b; h_c03_arith_s4x32x32b_thorough ByteSlicedAES4x32x32b; h_c03_arith_s32x16b_thorough ByteSlicedAES32x16b; h_c03_arith_s8x32x16b_thorough ByteSlicedAES8x32x16b; h_c03_arith_s32x8b_thorough ByteSlicedAES32x8b; h_c03_arith_s16x32x8b_thorough ByteSlicedAES16x32x8b; h_c03_arith_s16x128x1b ByteSliced16x128x1b; h_c03_arith_s8x128x1b ByteSliced8x128x1b; h_c03_arith_s4x128x1b ByteSliced4x128x1b; h_c03_arith_s2x128x1b ByteSliced2x128x1b; h_c03_arith_s1x128x1b ByteSliced1x128x1b; h_c03_arith_s16x256x1b ByteSliced16x256x1b; h_c03_arith_s8x256x1b ByteSliced8x256x1b; h_c03_arith_s4x256x1b ByteSliced4x256x1b; h_c03_arith_s2x256x1b ByteSliced2x256x1b; h_c03_arith_s1x256x1b ByteSliced1x256x1b;}
each!{unary: h_c03_unary_s32x128b_thorough ByteSlicedAES32x128b; h_c03_unary_s32x64b_thorough ByteSlicedAES32x64b; h_c03_unary_s2x32x64b_thorough ByteSlicedAES2x32x64b; h_c03_unary_s32x32b_thorough ByteSlicedAES32x32b; h_c03_unary_s4x32x32b_thorough ByteSlicedAES4x32x32b; h_c03_unary_s32x16b_thorough ByteSlicedAES32x16b; h_c03_unary_s8x32x16b_thorough ByteSlicedAES8x32x16b; h_c03_unary_s32x8b_thorough ByteSlicedAES32x8b; h_c03_unary_s16x32x8b_thorough ByteSlicedAES16x32x8b; h_c03_unary_s16x128x1b ByteSliced16x128x1b; h_c03_unary_s8x128x1b ByteSliced8x128x1b; h_c03_unary_s4x128x1b ByteSliced4x128x1b; h_c03_unary_s2x128x1b ByteSliced2x128x1b; h_c03_unary_s1x128x1b ByteSliced1x128x1b; h_c03_unary_s16x256x1b ByteSliced16x256x1b; h_c03_unary_s8x256x1b ByteSliced8x256x1b; h_c03_unary_s4x256x1b ByteSliced4x256x1b; h_c03_unary_s2x256x1b ByteSliced2x256x1b; h_c03_unary_s1x256x1b ByteSliced1x256x1b;}
