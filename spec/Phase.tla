------------------------------- MODULE Phase -------------------------------
(* cosines of the multiples of 1/240 turn, scaled by PS: phases of the form   *)
(* exp(2 pi i m/240) are multiplied in integer arithmetic.                     *)
EXTENDS Integers
PS == 5000
CosTab == <<5000, 4998, 4993, 4985, 4973, 4957, 4938, 4916, 4891, 4862, 4830, 4794, 4755, 4713, 4668, 4619, 4568, 4513, 4455, 4394, 4330, 4263, 4193, 4121, 4045, 3967, 3886, 3802, 3716, 3627, 3536, 3442, 3346, 3247, 3147, 3044, 2939, 2832, 2723, 2612, 2500, 2386, 2270, 2153, 2034, 1913, 1792, 1669, 1545, 1420, 1294, 1167, 1040, 911, 782, 653, 523, 392, 262, 131, 0, -131, -262, -392, -523, -653, -782, -911, -1040, -1167, -1294, -1420, -1545, -1669, -1792, -1913, -2034, -2153, -2270, -2386, -2500, -2612, -2723, -2832, -2939, -3044, -3147, -3247, -3346, -3442, -3536, -3627, -3716, -3802, -3886, -3967, -4045, -4121, -4193, -4263, -4330, -4394, -4455, -4513, -4568, -4619, -4668, -4713, -4755, -4794, -4830, -4862, -4891, -4916, -4938, -4957, -4973, -4985, -4993, -4998, -5000, -4998, -4993, -4985, -4973, -4957, -4938, -4916, -4891, -4862, -4830, -4794, -4755, -4713, -4668, -4619, -4568, -4513, -4455, -4394, -4330, -4263, -4193, -4121, -4045, -3967, -3886, -3802, -3716, -3627, -3536, -3442, -3346, -3247, -3147, -3044, -2939, -2832, -2723, -2612, -2500, -2386, -2270, -2153, -2034, -1913, -1792, -1669, -1545, -1420, -1294, -1167, -1040, -911, -782, -653, -523, -392, -262, -131, 0, 131, 262, 392, 523, 653, 782, 911, 1040, 1167, 1294, 1420, 1545, 1669, 1792, 1913, 2034, 2153, 2270, 2386, 2500, 2612, 2723, 2832, 2939, 3044, 3147, 3247, 3346, 3442, 3536, 3627, 3716, 3802, 3886, 3967, 4045, 4121, 4193, 4263, 4330, 4394, 4455, 4513, 4568, 4619, 4668, 4713, 4755, 4794, 4830, 4862, 4891, 4916, 4938, 4957, 4973, 4985, 4993, 4998>>
Cos(m) == CosTab[(m % 240) + 1]
Sin(m) == CosTab[((m - 60) % 240) + 1]
=============================================================================
