// @generated by tools/gen_tables.py -- certificate tables: checked against abnf.rs by cert.rs, which closes the module.
pub mod tables {
use vstd::prelude::*;
use crate::re::*;
use crate::abnf::*;
verus! {

pub enum Nd { Zero, Eps, Cls(K), Cat(int, int), Alt(int, int), Star(int) }
/// hash-consed regexes: children have smaller numbers
pub closed spec fn node_0(i: int) -> Nd { if i < 6 { if i < 3 { if i < 1 { Nd::Cls(K::Alpha) } else { if i < 2 { Nd::Eps } else { Nd::Alt(1, 0) } } } else { if i < 4 { Nd::Cat(0, 2) } else { if i < 5 { Nd::Cat(0, 3) } else { Nd::Cls(K::Lit(0x2du8)) } } } } else { if i < 9 { if i < 7 { Nd::Cat(0, 0) } else { if i < 8 { Nd::Cat(0, 6) } else { Nd::Cat(5, 7) } } } else { if i < 10 { Nd::Alt(1, 8) } else { if i < 11 { Nd::Cat(8, 9) } else { Nd::Alt(1, 10) } } } } }
pub closed spec fn node_1(i: int) -> Nd { if i < 18 { if i < 15 { if i < 13 { Nd::Cat(7, 11) } else { if i < 14 { Nd::Cat(5, 12) } else { Nd::Alt(1, 13) } } } else { if i < 16 { Nd::Cat(4, 14) } else { if i < 17 { Nd::Cat(0, 7) } else { Nd::Alt(1, 3) } } } } else { if i < 21 { if i < 19 { Nd::Cat(0, 17) } else { if i < 20 { Nd::Alt(1, 18) } else { Nd::Cat(0, 19) } } } else { if i < 22 { Nd::Cat(0, 20) } else { if i < 23 { Nd::Cat(0, 21) } else { Nd::Cat(0, 22) } } } } }
pub closed spec fn node_2(i: int) -> Nd { if i < 30 { if i < 27 { if i < 25 { Nd::Cat(0, 23) } else { if i < 26 { Nd::Alt(16, 24) } else { Nd::Alt(15, 25) } } } else { if i < 28 { Nd::Cat(5, 16) } else { if i < 29 { Nd::Alt(1, 27) } else { Nd::Cls(K::Digit) } } } } else { if i < 33 { if i < 31 { Nd::Cat(29, 29) } else { if i < 32 { Nd::Cat(29, 30) } else { Nd::Alt(6, 31) } } } else { if i < 34 { Nd::Cat(5, 32) } else { if i < 35 { Nd::Alt(1, 33) } else { Nd::Cls(K::Alnum) } } } } }
pub closed spec fn node_3(i: int) -> Nd { if i < 42 { if i < 39 { if i < 37 { Nd::Alt(1, 35) } else { if i < 38 { Nd::Cat(35, 36) } else { Nd::Alt(1, 37) } } } else { if i < 40 { Nd::Cat(35, 38) } else { if i < 41 { Nd::Alt(1, 39) } else { Nd::Cat(35, 40) } } } } else { if i < 45 { if i < 43 { Nd::Cat(35, 41) } else { if i < 44 { Nd::Cat(35, 42) } else { Nd::Cat(35, 43) } } } else { if i < 46 { Nd::Cat(35, 44) } else { if i < 47 { Nd::Cat(35, 35) } else { Nd::Cat(35, 46) } } } } }
pub closed spec fn node_4(i: int) -> Nd { if i < 54 { if i < 51 { if i < 49 { Nd::Cat(29, 47) } else { if i < 50 { Nd::Alt(45, 48) } else { Nd::Cat(5, 49) } } } else { if i < 52 { Nd::Star(50) } else { if i < 53 { Nd::Cls(K::Sing) } else { Nd::Alt(1, 41) } } } } else { if i < 57 { if i < 55 { Nd::Cat(35, 53) } else { if i < 56 { Nd::Alt(1, 54) } else { Nd::Cat(35, 55) } } } else { if i < 58 { Nd::Alt(1, 56) } else { if i < 59 { Nd::Cat(35, 57) } else { Nd::Cat(35, 58) } } } } }
pub closed spec fn node_5(i: int) -> Nd { if i < 66 { if i < 63 { if i < 61 { Nd::Cat(5, 59) } else { if i < 62 { Nd::Star(60) } else { Nd::Cat(60, 61) } } } else { if i < 64 { Nd::Cat(52, 62) } else { if i < 65 { Nd::Cat(5, 63) } else { Nd::Star(64) } } } } else { if i < 69 { if i < 67 { Nd::Cls(K::Lit(0x78u8)) } else { if i < 68 { Nd::Alt(1, 58) } else { Nd::Cat(35, 67) } } } else { if i < 70 { Nd::Cat(5, 68) } else { if i < 71 { Nd::Star(69) } else { Nd::Cat(69, 70) } } } } }
pub closed spec fn node_6(i: int) -> Nd { if i < 78 { if i < 75 { if i < 73 { Nd::Cat(66, 71) } else { if i < 74 { Nd::Cat(5, 72) } else { Nd::Alt(1, 73) } } } else { if i < 76 { Nd::Cat(65, 74) } else { if i < 77 { Nd::Cat(51, 75) } else { Nd::Cat(34, 76) } } } } else { if i < 81 { if i < 79 { Nd::Cat(28, 77) } else { if i < 80 { Nd::Cat(26, 78) } else { Nd::Cls(K::Lit(0x65u8)) } } } else { if i < 82 { Nd::Cls(K::Lit(0x6eu8)) } else { if i < 83 { Nd::Cls(K::Lit(0x47u8)) } else { Nd::Cls(K::Lit(0x42u8)) } } } } }
pub closed spec fn node_7(i: int) -> Nd { if i < 90 { if i < 87 { if i < 85 { Nd::Cls(K::Lit(0x6fu8)) } else { if i < 86 { Nd::Cls(K::Lit(0x64u8)) } else { Nd::Cat(80, 85) } } } else { if i < 88 { Nd::Cat(84, 86) } else { if i < 89 { Nd::Cat(5, 87) } else { Nd::Cat(83, 88) } } } } else { if i < 93 { if i < 91 { Nd::Cat(82, 89) } else { if i < 92 { Nd::Cat(5, 90) } else { Nd::Cat(81, 91) } } } else { if i < 94 { Nd::Cat(80, 92) } else { if i < 95 { Nd::Cls(K::Lit(0x69u8)) } else { Nd::Cls(K::Lit(0x61u8)) } } } } }
pub closed spec fn node_8(i: int) -> Nd { if i < 102 { if i < 99 { if i < 97 { Nd::Cls(K::Lit(0x6du8)) } else { if i < 98 { Nd::Cat(96, 94) } else { Nd::Cat(95, 97) } } } else { if i < 100 { Nd::Cat(5, 98) } else { if i < 101 { Nd::Cat(94, 99) } else { Nd::Cls(K::Lit(0x62u8)) } } } } else { if i < 105 { if i < 103 { Nd::Cat(81, 81) } else { if i < 104 { Nd::Cat(101, 102) } else { Nd::Cat(5, 103) } } } else { if i < 106 { Nd::Cat(94, 104) } else { if i < 107 { Nd::Cls(K::Lit(0x66u8)) } else { Nd::Cls(K::Lit(0x75u8)) } } } } }
pub closed spec fn node_9(i: int) -> Nd { if i < 114 { if i < 111 { if i < 109 { Nd::Cls(K::Lit(0x6cu8)) } else { if i < 110 { Nd::Cls(K::Lit(0x74u8)) } else { Nd::Cat(108, 109) } } } else { if i < 112 { Nd::Cat(107, 110) } else { if i < 113 { Nd::Cat(95, 111) } else { Nd::Cat(106, 112) } } } } else { if i < 117 { if i < 115 { Nd::Cat(80, 113) } else { if i < 116 { Nd::Cat(85, 114) } else { Nd::Cat(5, 115) } } } else { if i < 118 { Nd::Cat(94, 116) } else { if i < 119 { Nd::Cls(K::Lit(0x63u8)) } else { Nd::Cls(K::Lit(0x68u8)) } } } } }
pub closed spec fn node_10(i: int) -> Nd { if i < 126 { if i < 123 { if i < 121 { Nd::Cat(95, 81) } else { if i < 122 { Nd::Cat(94, 120) } else { Nd::Cat(119, 121) } } } else { if i < 124 { Nd::Cat(118, 122) } else { if i < 125 { Nd::Cat(84, 123) } else { Nd::Cat(81, 124) } } } } else { if i < 129 { if i < 127 { Nd::Cat(80, 125) } else { if i < 128 { Nd::Cat(5, 126) } else { Nd::Cat(94, 127) } } } else { if i < 130 { Nd::Cls(K::Lit(0x6bu8)) } else { if i < 131 { Nd::Cat(95, 129) } else { Nd::Cat(119, 130) } } } } }
pub closed spec fn node_11(i: int) -> Nd { if i < 138 { if i < 135 { if i < 133 { Nd::Cat(5, 131) } else { if i < 134 { Nd::Cat(94, 132) } else { Nd::Cls(K::Lit(0x67u8)) } } } else { if i < 136 { Nd::Cat(84, 81) } else { if i < 137 { Nd::Cat(134, 135) } else { Nd::Cat(81, 136) } } } } else { if i < 141 { if i < 139 { Nd::Cat(94, 137) } else { if i < 140 { Nd::Cat(108, 138) } else { Nd::Cat(129, 139) } } } else { if i < 142 { Nd::Cat(5, 140) } else { if i < 143 { Nd::Cat(94, 141) } else { Nd::Cat(107, 66) } } } } }
pub closed spec fn node_12(i: int) -> Nd { if i < 150 { if i < 147 { if i < 145 { Nd::Cat(108, 143) } else { if i < 146 { Nd::Cat(5, 144) } else { Nd::Cat(94, 145) } } } else { if i < 148 { Nd::Cat(134, 84) } else { if i < 149 { Nd::Cat(81, 147) } else { Nd::Cat(94, 148) } } } } else { if i < 153 { if i < 151 { Nd::Cat(96, 149) } else { if i < 152 { Nd::Cat(5, 150) } else { Nd::Cat(94, 151) } } } else { if i < 154 { Nd::Cls(K::Lit(0x76u8)) } else { if i < 155 { Nd::Cls(K::Lit(0x6au8)) } else { Nd::Cat(154, 84) } } } } }
pub closed spec fn node_13(i: int) -> Nd { if i < 162 { if i < 159 { if i < 157 { Nd::Cat(95, 155) } else { if i < 158 { Nd::Cat(153, 156) } else { Nd::Cat(95, 157) } } } else { if i < 160 { Nd::Cat(81, 158) } else { if i < 161 { Nd::Cat(5, 159) } else { Nd::Cat(94, 160) } } } } else { if i < 165 { if i < 163 { Nd::Cls(K::Lit(0x70u8)) } else { if i < 164 { Nd::Cls(K::Lit(0x77u8)) } else { Nd::Cat(163, 81) } } } else { if i < 166 { Nd::Cat(162, 164) } else { if i < 167 { Nd::Cat(5, 165) } else { Nd::Cat(94, 166) } } } } }
pub closed spec fn node_14(i: int) -> Nd { if i < 174 { if i < 171 { if i < 169 { Nd::Cat(95, 84) } else { if i < 170 { Nd::Cat(109, 168) } else { Nd::Cat(5, 169) } } } else { if i < 172 { Nd::Cat(94, 170) } else { if i < 173 { Nd::Cls(K::Lit(0x79u8)) } else { Nd::Cat(95, 172) } } } } else { if i < 177 { if i < 175 { Nd::Cat(109, 173) } else { if i < 176 { Nd::Cat(5, 174) } else { Nd::Cat(94, 175) } } } else { if i < 178 { Nd::Cls(K::Lit(0x73u8)) } else { if i < 179 { Nd::Cat(177, 107) } else { Nd::Cat(109, 178) } } } } }
pub closed spec fn node_15(i: int) -> Nd { if i < 186 { if i < 183 { if i < 181 { Nd::Cat(5, 179) } else { if i < 182 { Nd::Cat(94, 180) } else { Nd::Cls(K::Lit(0x45u8)) } } } else { if i < 184 { Nd::Cls(K::Lit(0x46u8)) } else { if i < 185 { Nd::Cls(K::Lit(0x52u8)) } else { Nd::Cat(183, 184) } } } } else { if i < 189 { if i < 187 { Nd::Cat(5, 185) } else { if i < 188 { Nd::Cat(182, 186) } else { Nd::Cat(83, 187) } } } else { if i < 190 { Nd::Cat(5, 188) } else { if i < 191 { Nd::Cat(81, 189) } else { Nd::Cat(134, 190) } } } } }
pub closed spec fn node_16(i: int) -> Nd { if i < 198 { if i < 195 { if i < 193 { Nd::Cat(177, 191) } else { if i < 194 { Nd::Cls(K::Lit(0x4eu8)) } else { Nd::Cls(K::Lit(0x4cu8)) } } } else { if i < 196 { Nd::Cat(193, 194) } else { if i < 197 { Nd::Cat(5, 195) } else { Nd::Cat(182, 196) } } } } else { if i < 201 { if i < 199 { Nd::Cat(83, 197) } else { if i < 200 { Nd::Cat(5, 198) } else { Nd::Cat(81, 199) } } } else { if i < 202 { Nd::Cat(134, 200) } else { if i < 203 { Nd::Cat(177, 201) } else { Nd::Cls(K::Lit(0x43u8)) } } } } }
pub closed spec fn node_17(i: int) -> Nd { if i < 210 { if i < 207 { if i < 205 { Nd::Cls(K::Lit(0x48u8)) } else { if i < 206 { Nd::Cls(K::Lit(0x44u8)) } else { Nd::Cat(205, 182) } } } else { if i < 208 { Nd::Cat(5, 206) } else { if i < 209 { Nd::Cat(204, 207) } else { Nd::Cat(203, 208) } } } } else { if i < 213 { if i < 211 { Nd::Cat(5, 209) } else { if i < 212 { Nd::Cat(81, 210) } else { Nd::Cat(134, 211) } } } else { if i < 214 { Nd::Cat(177, 212) } else { if i < 215 { Nd::Cls(K::Lit(0x72u8)) } else { Nd::Cat(101, 120) } } } } }
pub closed spec fn node_18(i: int) -> Nd { if i < 222 { if i < 219 { if i < 217 { Nd::Cat(154, 215) } else { if i < 218 { Nd::Cat(84, 216) } else { Nd::Cat(108, 217) } } } else { if i < 220 { Nd::Cat(5, 218) } else { if i < 221 { Nd::Cat(109, 219) } else { Nd::Cat(214, 220) } } } } else { if i < 225 { if i < 223 { Nd::Cat(95, 221) } else { if i < 224 { Nd::Cat(177, 119) } else { Nd::Cat(94, 223) } } } else { if i < 226 { Nd::Cat(108, 224) } else { if i < 227 { Nd::Cat(107, 225) } else { Nd::Cat(95, 226) } } } } }
pub closed spec fn node_19(i: int) -> Nd { if i < 234 { if i < 231 { if i < 229 { Nd::Cat(134, 227) } else { if i < 230 { Nd::Cat(5, 228) } else { Nd::Cat(108, 229) } } } else { if i < 232 { Nd::Cat(80, 230) } else { if i < 233 { Nd::Cat(118, 231) } else { Nd::Cat(84, 129) } } } } else { if i < 237 { if i < 235 { Nd::Cat(101, 233) } else { if i < 236 { Nd::Cat(5, 234) } else { Nd::Cat(84, 235) } } } else { if i < 238 { Nd::Cat(81, 236) } else { if i < 239 { Nd::Cat(172, 81) } else { Nd::Cat(81, 238) } } } } }
pub closed spec fn node_20(i: int) -> Nd { if i < 246 { if i < 243 { if i < 241 { Nd::Cat(5, 239) } else { if i < 242 { Nd::Cat(84, 240) } else { Nd::Cat(81, 241) } } } else { if i < 244 { Nd::Cls(K::Lit(0x7au8)) } else { if i < 245 { Nd::Cat(172, 107) } else { Nd::Cat(84, 244) } } } } else { if i < 249 { if i < 247 { Nd::Cat(107, 245) } else { if i < 248 { Nd::Cat(134, 246) } else { Nd::Cat(5, 247) } } } else { if i < 250 { Nd::Cat(119, 248) } else { if i < 251 { Nd::Cat(243, 249) } else { Nd::Cat(129, 95) } } } } }
pub closed spec fn node_21(i: int) -> Nd { if i < 258 { if i < 255 { if i < 253 { Nd::Cat(129, 251) } else { if i < 254 { Nd::Cat(95, 252) } else { Nd::Cat(119, 253) } } } else { if i < 256 { Nd::Cat(5, 254) } else { if i < 257 { Nd::Cat(119, 255) } else { Nd::Cat(243, 256) } } } } else { if i < 261 { if i < 259 { Nd::Cat(94, 81) } else { if i < 260 { Nd::Cat(96, 258) } else { Nd::Cat(5, 259) } } } else { if i < 262 { Nd::Cat(119, 260) } else { if i < 263 { Nd::Cat(243, 261) } else { Nd::Cat(81, 120) } } } } }
pub closed spec fn node_22(i: int) -> Nd { if i < 270 { if i < 267 { if i < 265 { Nd::Cat(5, 263) } else { if i < 266 { Nd::Cat(81, 264) } else { Nd::Cat(94, 265) } } } else { if i < 268 { Nd::Cat(96, 266) } else { if i < 269 { Nd::Cat(5, 267) } else { Nd::Cat(119, 268) } } } } else { if i < 273 { if i < 271 { Nd::Cat(243, 269) } else { if i < 272 { Nd::Cat(81, 134) } else { Nd::Cat(95, 271) } } } else { if i < 274 { Nd::Cat(94, 272) } else { if i < 275 { Nd::Cat(66, 273) } else { Nd::Cat(5, 274) } } } } }
pub closed spec fn node_23(i: int) -> Nd { if i < 282 { if i < 279 { if i < 277 { Nd::Cat(119, 275) } else { if i < 278 { Nd::Cat(243, 276) } else { Nd::Zero } } } else { if i < 280 { Nd::Alt(277, 278) } else { if i < 281 { Nd::Alt(270, 279) } else { Nd::Alt(262, 280) } } } } else { if i < 285 { if i < 283 { Nd::Alt(257, 281) } else { if i < 284 { Nd::Alt(250, 282) } else { Nd::Alt(242, 283) } } } else { if i < 286 { Nd::Alt(237, 284) } else { if i < 287 { Nd::Alt(232, 285) } else { Nd::Alt(222, 286) } } } } }
pub closed spec fn node_24(i: int) -> Nd { if i < 294 { if i < 291 { if i < 289 { Nd::Alt(213, 287) } else { if i < 290 { Nd::Alt(202, 288) } else { Nd::Alt(192, 289) } } } else { if i < 292 { Nd::Alt(181, 290) } else { if i < 293 { Nd::Alt(176, 291) } else { Nd::Alt(171, 292) } } } } else { if i < 297 { if i < 295 { Nd::Alt(167, 293) } else { if i < 296 { Nd::Alt(161, 294) } else { Nd::Alt(152, 295) } } } else { if i < 298 { Nd::Alt(146, 296) } else { if i < 299 { Nd::Alt(142, 297) } else { Nd::Alt(133, 298) } } } } }
pub closed spec fn node_25(i: int) -> Nd { if i < 306 { if i < 303 { if i < 301 { Nd::Alt(128, 299) } else { if i < 302 { Nd::Alt(117, 300) } else { Nd::Alt(105, 301) } } } else { if i < 304 { Nd::Alt(100, 302) } else { if i < 305 { Nd::Alt(93, 303) } else { Nd::Alt(72, 304) } } } } else { if i < 309 { if i < 307 { Nd::Alt(79, 305) } else { if i < 308 { Nd::Alt(1, 20) } else { Nd::Cat(0, 307) } } } else { if i < 310 { Nd::Alt(1, 308) } else { if i < 311 { Nd::Cat(0, 309) } else { Nd::Alt(1, 310) } } } } }
pub closed spec fn node_26(i: int) -> Nd { if i < 318 { if i < 315 { if i < 313 { Nd::Cat(0, 311) } else { if i < 314 { Nd::Cat(0, 312) } else { Nd::Cat(49, 51) } } } else { if i < 316 { Nd::Alt(1, 314) } else { if i < 317 { Nd::Cat(63, 65) } else { Nd::Alt(1, 316) } } } } else { if i < 321 { if i < 319 { Nd::Cat(0, 9) } else { if i < 320 { Nd::Cat(0, 318) } else { Nd::Cat(0, 319) } } } else { if i < 322 { Nd::Cat(0, 11) } else { if i < 323 { Nd::Cat(0, 321) } else { Nd::Cat(2, 14) } } } } }
pub closed spec fn node_27(i: int) -> Nd { if i < 330 { if i < 327 { if i < 325 { Nd::Cat(0, 323) } else { if i < 326 { Nd::Cat(57, 61) } else { Nd::Cat(35, 325) } } } else { if i < 328 { Nd::Cat(35, 326) } else { if i < 329 { Nd::Cat(61, 65) } else { Nd::Cat(60, 328) } } } } else { if i < 333 { if i < 331 { Nd::Cat(52, 329) } else { if i < 332 { Nd::Cat(67, 70) } else { Nd::Cat(35, 331) } } } else { if i < 334 { Nd::Cat(61, 75) } else { if i < 335 { Nd::Cat(60, 333) } else { Nd::Cat(52, 334) } } } } }
pub closed spec fn node_28(i: int) -> Nd { if i < 342 { if i < 339 { if i < 337 { Nd::Cat(49, 76) } else { if i < 338 { Nd::Cat(32, 76) } else { Nd::Cat(0, 77) } } } else { if i < 340 { Nd::Cat(0, 338) } else { if i < 341 { Nd::Cat(0, 339) } else { Nd::Cat(0, 340) } } } } else { if i < 345 { if i < 343 { Nd::Cat(14, 78) } else { if i < 344 { Nd::Cat(2, 342) } else { Nd::Cat(0, 343) } } } else { if i < 346 { Nd::Cat(0, 78) } else { if i < 347 { Nd::Cat(0, 345) } else { Nd::Cat(0, 346) } } } } }
pub closed spec fn node_29(i: int) -> Nd { if i < 354 { if i < 351 { if i < 349 { Nd::Cat(19, 78) } else { if i < 350 { Nd::Cat(0, 348) } else { Nd::Cat(0, 349) } } } else { if i < 352 { Nd::Cat(0, 350) } else { if i < 353 { Nd::Cat(0, 351) } else { Nd::Cat(40, 51) } } } } else { if i < 357 { if i < 355 { Nd::Cat(35, 353) } else { if i < 356 { Nd::Cat(35, 354) } else { Nd::Cat(35, 355) } } } else { if i < 358 { Nd::Cat(35, 356) } else { if i < 359 { Nd::Cat(35, 51) } else { Nd::Cat(35, 358) } } } } }
pub closed spec fn node_30(i: int) -> Nd { if i < 366 { if i < 363 { if i < 361 { Nd::Cat(35, 359) } else { if i < 362 { Nd::Cat(55, 61) } else { Nd::Cat(57, 328) } } } else { if i < 364 { Nd::Cat(35, 362) } else { if i < 365 { Nd::Cat(35, 363) } else { Nd::Cat(57, 70) } } } } else { if i < 369 { if i < 367 { Nd::Cat(57, 333) } else { if i < 368 { Nd::Cat(35, 366) } else { Nd::Cat(35, 367) } } } else { if i < 370 { Nd::Cat(40, 76) } else { if i < 371 { Nd::Cat(35, 369) } else { Nd::Cat(35, 370) } } } } }
pub closed spec fn node_31(i: int) -> Nd { if i < 378 { if i < 375 { if i < 373 { Nd::Cat(35, 371) } else { if i < 374 { Nd::Cat(35, 372) } else { Nd::Cat(35, 76) } } } else { if i < 376 { Nd::Cat(35, 374) } else { if i < 377 { Nd::Cat(35, 375) } else { Nd::Cat(0, 76) } } } } else { if i < 381 { if i < 379 { Nd::Cat(29, 76) } else { if i < 380 { Nd::Cat(29, 378) } else { Nd::Cat(11, 78) } } } else { if i < 382 { Nd::Cat(7, 380) } else { if i < 383 { Nd::Cat(17, 78) } else { Nd::Cat(38, 51) } } } } }
pub closed spec fn node_32(i: int) -> Nd { if i < 390 { if i < 387 { if i < 385 { Nd::Cat(53, 61) } else { if i < 386 { Nd::Cat(55, 328) } else { Nd::Cat(55, 70) } } } else { if i < 388 { Nd::Cat(55, 333) } else { if i < 389 { Nd::Cat(38, 76) } else { Nd::Cat(9, 78) } } } } else { if i < 393 { if i < 391 { Nd::Cat(0, 389) } else { if i < 392 { Nd::Cat(0, 390) } else { Nd::Cat(0, 391) } } } else { if i < 394 { Nd::Cat(0, 380) } else { if i < 395 { Nd::Cat(0, 393) } else { Nd::Cat(2, 78) } } } } }
pub closed spec fn node_33(i: int) -> Nd { if i < 402 { if i < 399 { if i < 397 { Nd::Cat(36, 51) } else { if i < 398 { Nd::Cat(40, 61) } else { Nd::Cat(53, 328) } } } else { if i < 400 { Nd::Cat(53, 70) } else { if i < 401 { Nd::Cat(53, 333) } else { Nd::Cat(36, 76) } } } } else { if i < 405 { if i < 403 { Nd::Cat(38, 61) } else { if i < 404 { Nd::Cat(40, 328) } else { Nd::Cat(40, 70) } } } else { if i < 406 { Nd::Cat(40, 333) } else { if i < 407 { Nd::Cat(36, 61) } else { Nd::Cat(38, 328) } } } } }
pub closed spec fn node_34(i: int) -> Nd { if i < 410 { if i < 409 { Nd::Cat(38, 70) } else { Nd::Cat(38, 333) } } else { if i < 411 { Nd::Cat(36, 328) } else { if i < 412 { Nd::Cat(36, 70) } else { Nd::Cat(36, 333) } } } }
#[verifier::memoize] pub closed spec fn node(i: int) -> Nd { if i < 204 { if i < 96 { if i < 48 { if i < 24 { if i < 12 { node_0(i) } else { node_1(i) } } else { if i < 36 { node_2(i) } else { node_3(i) } } } else { if i < 72 { if i < 60 { node_4(i) } else { node_5(i) } } else { if i < 84 { node_6(i) } else { node_7(i) } } } } else { if i < 144 { if i < 120 { if i < 108 { node_8(i) } else { node_9(i) } } else { if i < 132 { node_10(i) } else { node_11(i) } } } else { if i < 168 { if i < 156 { node_12(i) } else { node_13(i) } } else { if i < 180 { node_14(i) } else { if i < 192 { node_15(i) } else { node_16(i) } } } } } } else { if i < 312 { if i < 252 { if i < 228 { if i < 216 { node_17(i) } else { node_18(i) } } else { if i < 240 { node_19(i) } else { node_20(i) } } } else { if i < 276 { if i < 264 { node_21(i) } else { node_22(i) } } else { if i < 288 { node_23(i) } else { if i < 300 { node_24(i) } else { node_25(i) } } } } } else { if i < 360 { if i < 336 { if i < 324 { node_26(i) } else { node_27(i) } } else { if i < 348 { node_28(i) } else { node_29(i) } } } else { if i < 384 { if i < 372 { node_30(i) } else { node_31(i) } } else { if i < 396 { node_32(i) } else { if i < 408 { node_33(i) } else { node_34(i) } } } } } } }
/// linear form of each node
pub closed spec fn rows_0(i: int) -> Seq<(K, int)> { if i < 6 { if i < 3 { if i < 1 { seq![(K::Alpha, 1int)] } else { if i < 2 { Seq::empty() } else { seq![(K::Alpha, 1int)] } } } else { if i < 4 { seq![(K::Alpha, 2int)] } else { if i < 5 { seq![(K::Alpha, 3int)] } else { seq![(K::Lit(0x2du8), 1int)] } } } } else { if i < 9 { if i < 7 { seq![(K::Alpha, 0int)] } else { if i < 8 { seq![(K::Alpha, 6int)] } else { seq![(K::Lit(0x2du8), 7int)] } } } else { if i < 10 { seq![(K::Lit(0x2du8), 7int)] } else { if i < 11 { seq![(K::Lit(0x2du8), 320int)] } else { seq![(K::Lit(0x2du8), 320int)] } } } } }
pub closed spec fn rows_1(i: int) -> Seq<(K, int)> { if i < 18 { if i < 15 { if i < 13 { seq![(K::Alpha, 322int)] } else { if i < 14 { seq![(K::Lit(0x2du8), 12int)] } else { seq![(K::Lit(0x2du8), 12int)] } } } else { if i < 16 { seq![(K::Alpha, 324int)] } else { if i < 17 { seq![(K::Alpha, 7int)] } else { seq![(K::Alpha, 2int)] } } } } else { if i < 21 { if i < 19 { seq![(K::Alpha, 17int)] } else { if i < 20 { seq![(K::Alpha, 17int)] } else { seq![(K::Alpha, 19int)] } } } else { if i < 22 { seq![(K::Alpha, 20int)] } else { if i < 23 { seq![(K::Alpha, 21int)] } else { seq![(K::Alpha, 22int)] } } } } }
pub closed spec fn rows_2(i: int) -> Seq<(K, int)> { if i < 30 { if i < 27 { if i < 25 { seq![(K::Alpha, 23int)] } else { if i < 26 { seq![(K::Alpha, 7int), (K::Alpha, 23int)] } else { seq![(K::Alpha, 324int), (K::Alpha, 7int), (K::Alpha, 23int)] } } } else { if i < 28 { seq![(K::Lit(0x2du8), 16int)] } else { if i < 29 { seq![(K::Lit(0x2du8), 16int)] } else { seq![(K::Digit, 1int)] } } } } else { if i < 33 { if i < 31 { seq![(K::Digit, 29int)] } else { if i < 32 { seq![(K::Digit, 30int)] } else { seq![(K::Alpha, 0int), (K::Digit, 30int)] } } } else { if i < 34 { seq![(K::Lit(0x2du8), 32int)] } else { if i < 35 { seq![(K::Lit(0x2du8), 32int)] } else { seq![(K::Alnum, 1int)] } } } } }
pub closed spec fn rows_3(i: int) -> Seq<(K, int)> { if i < 42 { if i < 39 { if i < 37 { seq![(K::Alnum, 1int)] } else { if i < 38 { seq![(K::Alnum, 36int)] } else { seq![(K::Alnum, 36int)] } } } else { if i < 40 { seq![(K::Alnum, 38int)] } else { if i < 41 { seq![(K::Alnum, 38int)] } else { seq![(K::Alnum, 40int)] } } } } else { if i < 45 { if i < 43 { seq![(K::Alnum, 41int)] } else { if i < 44 { seq![(K::Alnum, 42int)] } else { seq![(K::Alnum, 43int)] } } } else { if i < 46 { seq![(K::Alnum, 44int)] } else { if i < 47 { seq![(K::Alnum, 35int)] } else { seq![(K::Alnum, 46int)] } } } } }
pub closed spec fn rows_4(i: int) -> Seq<(K, int)> { if i < 54 { if i < 51 { if i < 49 { seq![(K::Digit, 47int)] } else { if i < 50 { seq![(K::Alnum, 44int), (K::Digit, 47int)] } else { seq![(K::Lit(0x2du8), 49int)] } } } else { if i < 52 { seq![(K::Lit(0x2du8), 314int)] } else { if i < 53 { seq![(K::Sing, 1int)] } else { seq![(K::Alnum, 40int)] } } } } else { if i < 57 { if i < 55 { seq![(K::Alnum, 53int)] } else { if i < 56 { seq![(K::Alnum, 53int)] } else { seq![(K::Alnum, 55int)] } } } else { if i < 58 { seq![(K::Alnum, 55int)] } else { if i < 59 { seq![(K::Alnum, 57int)] } else { seq![(K::Alnum, 58int)] } } } } }
pub closed spec fn rows_5(i: int) -> Seq<(K, int)> { if i < 66 { if i < 63 { if i < 61 { seq![(K::Lit(0x2du8), 59int)] } else { if i < 62 { seq![(K::Lit(0x2du8), 327int)] } else { seq![(K::Lit(0x2du8), 327int)] } } } else { if i < 64 { seq![(K::Sing, 62int)] } else { if i < 65 { seq![(K::Lit(0x2du8), 63int)] } else { seq![(K::Lit(0x2du8), 330int)] } } } } else { if i < 69 { if i < 67 { seq![(K::Lit(0x78u8), 1int)] } else { if i < 68 { seq![(K::Alnum, 57int)] } else { seq![(K::Alnum, 67int)] } } } else { if i < 70 { seq![(K::Lit(0x2du8), 68int)] } else { if i < 71 { seq![(K::Lit(0x2du8), 332int)] } else { seq![(K::Lit(0x2du8), 332int)] } } } } }
pub closed spec fn rows_6(i: int) -> Seq<(K, int)> { if i < 78 { if i < 75 { if i < 73 { seq![(K::Lit(0x78u8), 71int)] } else { if i < 74 { seq![(K::Lit(0x2du8), 72int)] } else { seq![(K::Lit(0x2du8), 72int)] } } } else { if i < 76 { seq![(K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { if i < 77 { seq![(K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { seq![(K::Lit(0x2du8), 337int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } } } } else { if i < 81 { if i < 79 { seq![(K::Lit(0x2du8), 341int), (K::Lit(0x2du8), 337int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { if i < 80 { seq![(K::Alpha, 344int), (K::Alpha, 347int), (K::Alpha, 352int)] } else { seq![(K::Lit(0x65u8), 1int)] } } } else { if i < 82 { seq![(K::Lit(0x6eu8), 1int)] } else { if i < 83 { seq![(K::Lit(0x47u8), 1int)] } else { seq![(K::Lit(0x42u8), 1int)] } } } } }
pub closed spec fn rows_7(i: int) -> Seq<(K, int)> { if i < 90 { if i < 87 { if i < 85 { seq![(K::Lit(0x6fu8), 1int)] } else { if i < 86 { seq![(K::Lit(0x64u8), 1int)] } else { seq![(K::Lit(0x65u8), 85int)] } } } else { if i < 88 { seq![(K::Lit(0x6fu8), 86int)] } else { if i < 89 { seq![(K::Lit(0x2du8), 87int)] } else { seq![(K::Lit(0x42u8), 88int)] } } } } else { if i < 93 { if i < 91 { seq![(K::Lit(0x47u8), 89int)] } else { if i < 92 { seq![(K::Lit(0x2du8), 90int)] } else { seq![(K::Lit(0x6eu8), 91int)] } } } else { if i < 94 { seq![(K::Lit(0x65u8), 92int)] } else { if i < 95 { seq![(K::Lit(0x69u8), 1int)] } else { seq![(K::Lit(0x61u8), 1int)] } } } } }
pub closed spec fn rows_8(i: int) -> Seq<(K, int)> { if i < 102 { if i < 99 { if i < 97 { seq![(K::Lit(0x6du8), 1int)] } else { if i < 98 { seq![(K::Lit(0x6du8), 94int)] } else { seq![(K::Lit(0x61u8), 97int)] } } } else { if i < 100 { seq![(K::Lit(0x2du8), 98int)] } else { if i < 101 { seq![(K::Lit(0x69u8), 99int)] } else { seq![(K::Lit(0x62u8), 1int)] } } } } else { if i < 105 { if i < 103 { seq![(K::Lit(0x6eu8), 81int)] } else { if i < 104 { seq![(K::Lit(0x62u8), 102int)] } else { seq![(K::Lit(0x2du8), 103int)] } } } else { if i < 106 { seq![(K::Lit(0x69u8), 104int)] } else { if i < 107 { seq![(K::Lit(0x66u8), 1int)] } else { seq![(K::Lit(0x75u8), 1int)] } } } } }
pub closed spec fn rows_9(i: int) -> Seq<(K, int)> { if i < 114 { if i < 111 { if i < 109 { seq![(K::Lit(0x6cu8), 1int)] } else { if i < 110 { seq![(K::Lit(0x74u8), 1int)] } else { seq![(K::Lit(0x6cu8), 109int)] } } } else { if i < 112 { seq![(K::Lit(0x75u8), 110int)] } else { if i < 113 { seq![(K::Lit(0x61u8), 111int)] } else { seq![(K::Lit(0x66u8), 112int)] } } } } else { if i < 117 { if i < 115 { seq![(K::Lit(0x65u8), 113int)] } else { if i < 116 { seq![(K::Lit(0x64u8), 114int)] } else { seq![(K::Lit(0x2du8), 115int)] } } } else { if i < 118 { seq![(K::Lit(0x69u8), 116int)] } else { if i < 119 { seq![(K::Lit(0x63u8), 1int)] } else { seq![(K::Lit(0x68u8), 1int)] } } } } }
pub closed spec fn rows_10(i: int) -> Seq<(K, int)> { if i < 126 { if i < 123 { if i < 121 { seq![(K::Lit(0x61u8), 81int)] } else { if i < 122 { seq![(K::Lit(0x69u8), 120int)] } else { seq![(K::Lit(0x68u8), 121int)] } } } else { if i < 124 { seq![(K::Lit(0x63u8), 122int)] } else { if i < 125 { seq![(K::Lit(0x6fu8), 123int)] } else { seq![(K::Lit(0x6eu8), 124int)] } } } } else { if i < 129 { if i < 127 { seq![(K::Lit(0x65u8), 125int)] } else { if i < 128 { seq![(K::Lit(0x2du8), 126int)] } else { seq![(K::Lit(0x69u8), 127int)] } } } else { if i < 130 { seq![(K::Lit(0x6bu8), 1int)] } else { if i < 131 { seq![(K::Lit(0x61u8), 129int)] } else { seq![(K::Lit(0x68u8), 130int)] } } } } }
pub closed spec fn rows_11(i: int) -> Seq<(K, int)> { if i < 138 { if i < 135 { if i < 133 { seq![(K::Lit(0x2du8), 131int)] } else { if i < 134 { seq![(K::Lit(0x69u8), 132int)] } else { seq![(K::Lit(0x67u8), 1int)] } } } else { if i < 136 { seq![(K::Lit(0x6fu8), 81int)] } else { if i < 137 { seq![(K::Lit(0x67u8), 135int)] } else { seq![(K::Lit(0x6eu8), 136int)] } } } } else { if i < 141 { if i < 139 { seq![(K::Lit(0x69u8), 137int)] } else { if i < 140 { seq![(K::Lit(0x6cu8), 138int)] } else { seq![(K::Lit(0x6bu8), 139int)] } } } else { if i < 142 { seq![(K::Lit(0x2du8), 140int)] } else { if i < 143 { seq![(K::Lit(0x69u8), 141int)] } else { seq![(K::Lit(0x75u8), 66int)] } } } } }
pub closed spec fn rows_12(i: int) -> Seq<(K, int)> { if i < 150 { if i < 147 { if i < 145 { seq![(K::Lit(0x6cu8), 143int)] } else { if i < 146 { seq![(K::Lit(0x2du8), 144int)] } else { seq![(K::Lit(0x69u8), 145int)] } } } else { if i < 148 { seq![(K::Lit(0x67u8), 84int)] } else { if i < 149 { seq![(K::Lit(0x6eu8), 147int)] } else { seq![(K::Lit(0x69u8), 148int)] } } } } else { if i < 153 { if i < 151 { seq![(K::Lit(0x6du8), 149int)] } else { if i < 152 { seq![(K::Lit(0x2du8), 150int)] } else { seq![(K::Lit(0x69u8), 151int)] } } } else { if i < 154 { seq![(K::Lit(0x76u8), 1int)] } else { if i < 155 { seq![(K::Lit(0x6au8), 1int)] } else { seq![(K::Lit(0x6au8), 84int)] } } } } }
pub closed spec fn rows_13(i: int) -> Seq<(K, int)> { if i < 162 { if i < 159 { if i < 157 { seq![(K::Lit(0x61u8), 155int)] } else { if i < 158 { seq![(K::Lit(0x76u8), 156int)] } else { seq![(K::Lit(0x61u8), 157int)] } } } else { if i < 160 { seq![(K::Lit(0x6eu8), 158int)] } else { if i < 161 { seq![(K::Lit(0x2du8), 159int)] } else { seq![(K::Lit(0x69u8), 160int)] } } } } else { if i < 165 { if i < 163 { seq![(K::Lit(0x70u8), 1int)] } else { if i < 164 { seq![(K::Lit(0x77u8), 1int)] } else { seq![(K::Lit(0x77u8), 81int)] } } } else { if i < 166 { seq![(K::Lit(0x70u8), 164int)] } else { if i < 167 { seq![(K::Lit(0x2du8), 165int)] } else { seq![(K::Lit(0x69u8), 166int)] } } } } }
pub closed spec fn rows_14(i: int) -> Seq<(K, int)> { if i < 174 { if i < 171 { if i < 169 { seq![(K::Lit(0x61u8), 84int)] } else { if i < 170 { seq![(K::Lit(0x74u8), 168int)] } else { seq![(K::Lit(0x2du8), 169int)] } } } else { if i < 172 { seq![(K::Lit(0x69u8), 170int)] } else { if i < 173 { seq![(K::Lit(0x79u8), 1int)] } else { seq![(K::Lit(0x61u8), 172int)] } } } } else { if i < 177 { if i < 175 { seq![(K::Lit(0x74u8), 173int)] } else { if i < 176 { seq![(K::Lit(0x2du8), 174int)] } else { seq![(K::Lit(0x69u8), 175int)] } } } else { if i < 178 { seq![(K::Lit(0x73u8), 1int)] } else { if i < 179 { seq![(K::Lit(0x73u8), 107int)] } else { seq![(K::Lit(0x74u8), 178int)] } } } } }
pub closed spec fn rows_15(i: int) -> Seq<(K, int)> { if i < 186 { if i < 183 { if i < 181 { seq![(K::Lit(0x2du8), 179int)] } else { if i < 182 { seq![(K::Lit(0x69u8), 180int)] } else { seq![(K::Lit(0x45u8), 1int)] } } } else { if i < 184 { seq![(K::Lit(0x46u8), 1int)] } else { if i < 185 { seq![(K::Lit(0x52u8), 1int)] } else { seq![(K::Lit(0x46u8), 184int)] } } } } else { if i < 189 { if i < 187 { seq![(K::Lit(0x2du8), 185int)] } else { if i < 188 { seq![(K::Lit(0x45u8), 186int)] } else { seq![(K::Lit(0x42u8), 187int)] } } } else { if i < 190 { seq![(K::Lit(0x2du8), 188int)] } else { if i < 191 { seq![(K::Lit(0x6eu8), 189int)] } else { seq![(K::Lit(0x67u8), 190int)] } } } } }
pub closed spec fn rows_16(i: int) -> Seq<(K, int)> { if i < 198 { if i < 195 { if i < 193 { seq![(K::Lit(0x73u8), 191int)] } else { if i < 194 { seq![(K::Lit(0x4eu8), 1int)] } else { seq![(K::Lit(0x4cu8), 1int)] } } } else { if i < 196 { seq![(K::Lit(0x4eu8), 194int)] } else { if i < 197 { seq![(K::Lit(0x2du8), 195int)] } else { seq![(K::Lit(0x45u8), 196int)] } } } } else { if i < 201 { if i < 199 { seq![(K::Lit(0x42u8), 197int)] } else { if i < 200 { seq![(K::Lit(0x2du8), 198int)] } else { seq![(K::Lit(0x6eu8), 199int)] } } } else { if i < 202 { seq![(K::Lit(0x67u8), 200int)] } else { if i < 203 { seq![(K::Lit(0x73u8), 201int)] } else { seq![(K::Lit(0x43u8), 1int)] } } } } }
pub closed spec fn rows_17(i: int) -> Seq<(K, int)> { if i < 210 { if i < 207 { if i < 205 { seq![(K::Lit(0x48u8), 1int)] } else { if i < 206 { seq![(K::Lit(0x44u8), 1int)] } else { seq![(K::Lit(0x44u8), 182int)] } } } else { if i < 208 { seq![(K::Lit(0x2du8), 206int)] } else { if i < 209 { seq![(K::Lit(0x48u8), 207int)] } else { seq![(K::Lit(0x43u8), 208int)] } } } } else { if i < 213 { if i < 211 { seq![(K::Lit(0x2du8), 209int)] } else { if i < 212 { seq![(K::Lit(0x6eu8), 210int)] } else { seq![(K::Lit(0x67u8), 211int)] } } } else { if i < 214 { seq![(K::Lit(0x73u8), 212int)] } else { if i < 215 { seq![(K::Lit(0x72u8), 1int)] } else { seq![(K::Lit(0x62u8), 120int)] } } } } }
pub closed spec fn rows_18(i: int) -> Seq<(K, int)> { if i < 222 { if i < 219 { if i < 217 { seq![(K::Lit(0x6au8), 215int)] } else { if i < 218 { seq![(K::Lit(0x6fu8), 216int)] } else { seq![(K::Lit(0x6cu8), 217int)] } } } else { if i < 220 { seq![(K::Lit(0x2du8), 218int)] } else { if i < 221 { seq![(K::Lit(0x74u8), 219int)] } else { seq![(K::Lit(0x72u8), 220int)] } } } } else { if i < 225 { if i < 223 { seq![(K::Lit(0x61u8), 221int)] } else { if i < 224 { seq![(K::Lit(0x73u8), 119int)] } else { seq![(K::Lit(0x69u8), 223int)] } } } else { if i < 226 { seq![(K::Lit(0x6cu8), 224int)] } else { if i < 227 { seq![(K::Lit(0x75u8), 225int)] } else { seq![(K::Lit(0x61u8), 226int)] } } } } }
pub closed spec fn rows_19(i: int) -> Seq<(K, int)> { if i < 234 { if i < 231 { if i < 229 { seq![(K::Lit(0x67u8), 227int)] } else { if i < 230 { seq![(K::Lit(0x2du8), 228int)] } else { seq![(K::Lit(0x6cu8), 229int)] } } } else { if i < 232 { seq![(K::Lit(0x65u8), 230int)] } else { if i < 233 { seq![(K::Lit(0x63u8), 231int)] } else { seq![(K::Lit(0x6fu8), 129int)] } } } } else { if i < 237 { if i < 235 { seq![(K::Lit(0x62u8), 233int)] } else { if i < 236 { seq![(K::Lit(0x2du8), 234int)] } else { seq![(K::Lit(0x6fu8), 235int)] } } } else { if i < 238 { seq![(K::Lit(0x6eu8), 236int)] } else { if i < 239 { seq![(K::Lit(0x79u8), 81int)] } else { seq![(K::Lit(0x6eu8), 238int)] } } } } }
pub closed spec fn rows_20(i: int) -> Seq<(K, int)> { if i < 246 { if i < 243 { if i < 241 { seq![(K::Lit(0x2du8), 239int)] } else { if i < 242 { seq![(K::Lit(0x6fu8), 240int)] } else { seq![(K::Lit(0x6eu8), 241int)] } } } else { if i < 244 { seq![(K::Lit(0x7au8), 1int)] } else { if i < 245 { seq![(K::Lit(0x79u8), 107int)] } else { seq![(K::Lit(0x6fu8), 244int)] } } } } else { if i < 249 { if i < 247 { seq![(K::Lit(0x75u8), 245int)] } else { if i < 248 { seq![(K::Lit(0x67u8), 246int)] } else { seq![(K::Lit(0x2du8), 247int)] } } } else { if i < 250 { seq![(K::Lit(0x68u8), 248int)] } else { if i < 251 { seq![(K::Lit(0x7au8), 249int)] } else { seq![(K::Lit(0x6bu8), 95int)] } } } } }
pub closed spec fn rows_21(i: int) -> Seq<(K, int)> { if i < 258 { if i < 255 { if i < 253 { seq![(K::Lit(0x6bu8), 251int)] } else { if i < 254 { seq![(K::Lit(0x61u8), 252int)] } else { seq![(K::Lit(0x68u8), 253int)] } } } else { if i < 256 { seq![(K::Lit(0x2du8), 254int)] } else { if i < 257 { seq![(K::Lit(0x68u8), 255int)] } else { seq![(K::Lit(0x7au8), 256int)] } } } } else { if i < 261 { if i < 259 { seq![(K::Lit(0x69u8), 81int)] } else { if i < 260 { seq![(K::Lit(0x6du8), 258int)] } else { seq![(K::Lit(0x2du8), 259int)] } } } else { if i < 262 { seq![(K::Lit(0x68u8), 260int)] } else { if i < 263 { seq![(K::Lit(0x7au8), 261int)] } else { seq![(K::Lit(0x6eu8), 120int)] } } } } }
pub closed spec fn rows_22(i: int) -> Seq<(K, int)> { if i < 270 { if i < 267 { if i < 265 { seq![(K::Lit(0x2du8), 263int)] } else { if i < 266 { seq![(K::Lit(0x6eu8), 264int)] } else { seq![(K::Lit(0x69u8), 265int)] } } } else { if i < 268 { seq![(K::Lit(0x6du8), 266int)] } else { if i < 269 { seq![(K::Lit(0x2du8), 267int)] } else { seq![(K::Lit(0x68u8), 268int)] } } } } else { if i < 273 { if i < 271 { seq![(K::Lit(0x7au8), 269int)] } else { if i < 272 { seq![(K::Lit(0x6eu8), 134int)] } else { seq![(K::Lit(0x61u8), 271int)] } } } else { if i < 274 { seq![(K::Lit(0x69u8), 272int)] } else { if i < 275 { seq![(K::Lit(0x78u8), 273int)] } else { seq![(K::Lit(0x2du8), 274int)] } } } } }
pub closed spec fn rows_23(i: int) -> Seq<(K, int)> { if i < 282 { if i < 279 { if i < 277 { seq![(K::Lit(0x68u8), 275int)] } else { if i < 278 { seq![(K::Lit(0x7au8), 276int)] } else { Seq::empty() } } } else { if i < 280 { seq![(K::Lit(0x7au8), 276int)] } else { if i < 281 { seq![(K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { seq![(K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } } } } else { if i < 285 { if i < 283 { seq![(K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { if i < 284 { seq![(K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { seq![(K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } } } else { if i < 286 { seq![(K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { if i < 287 { seq![(K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { seq![(K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } } } } }
pub closed spec fn rows_24(i: int) -> Seq<(K, int)> { if i < 294 { if i < 291 { if i < 289 { seq![(K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { if i < 290 { seq![(K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { seq![(K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } } } else { if i < 292 { seq![(K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { if i < 293 { seq![(K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { seq![(K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } } } } else { if i < 297 { if i < 295 { seq![(K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { if i < 296 { seq![(K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { seq![(K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } } } else { if i < 298 { seq![(K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { if i < 299 { seq![(K::Lit(0x69u8), 141int), (K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { seq![(K::Lit(0x69u8), 132int), (K::Lit(0x69u8), 141int), (K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } } } } }
pub closed spec fn rows_25(i: int) -> Seq<(K, int)> { if i < 306 { if i < 303 { if i < 301 { seq![(K::Lit(0x69u8), 127int), (K::Lit(0x69u8), 132int), (K::Lit(0x69u8), 141int), (K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { if i < 302 { seq![(K::Lit(0x69u8), 116int), (K::Lit(0x69u8), 127int), (K::Lit(0x69u8), 132int), (K::Lit(0x69u8), 141int), (K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { seq![(K::Lit(0x69u8), 104int), (K::Lit(0x69u8), 116int), (K::Lit(0x69u8), 127int), (K::Lit(0x69u8), 132int), (K::Lit(0x69u8), 141int), (K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } } } else { if i < 304 { seq![(K::Lit(0x69u8), 99int), (K::Lit(0x69u8), 104int), (K::Lit(0x69u8), 116int), (K::Lit(0x69u8), 127int), (K::Lit(0x69u8), 132int), (K::Lit(0x69u8), 141int), (K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { if i < 305 { seq![(K::Lit(0x65u8), 92int), (K::Lit(0x69u8), 99int), (K::Lit(0x69u8), 104int), (K::Lit(0x69u8), 116int), (K::Lit(0x69u8), 127int), (K::Lit(0x69u8), 132int), (K::Lit(0x69u8), 141int), (K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { seq![(K::Lit(0x78u8), 71int), (K::Lit(0x65u8), 92int), (K::Lit(0x69u8), 99int), (K::Lit(0x69u8), 104int), (K::Lit(0x69u8), 116int), (K::Lit(0x69u8), 127int), (K::Lit(0x69u8), 132int), (K::Lit(0x69u8), 141int), (K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } } } } else { if i < 309 { if i < 307 { seq![(K::Alpha, 344int), (K::Alpha, 347int), (K::Alpha, 352int), (K::Lit(0x78u8), 71int), (K::Lit(0x65u8), 92int), (K::Lit(0x69u8), 99int), (K::Lit(0x69u8), 104int), (K::Lit(0x69u8), 116int), (K::Lit(0x69u8), 127int), (K::Lit(0x69u8), 132int), (K::Lit(0x69u8), 141int), (K::Lit(0x69u8), 145int), (K::Lit(0x69u8), 151int), (K::Lit(0x69u8), 160int), (K::Lit(0x69u8), 166int), (K::Lit(0x69u8), 170int), (K::Lit(0x69u8), 175int), (K::Lit(0x69u8), 180int), (K::Lit(0x73u8), 191int), (K::Lit(0x73u8), 201int), (K::Lit(0x73u8), 212int), (K::Lit(0x61u8), 221int), (K::Lit(0x63u8), 231int), (K::Lit(0x6eu8), 236int), (K::Lit(0x6eu8), 241int), (K::Lit(0x7au8), 249int), (K::Lit(0x7au8), 256int), (K::Lit(0x7au8), 261int), (K::Lit(0x7au8), 269int), (K::Lit(0x7au8), 276int)] } else { if i < 308 { seq![(K::Alpha, 19int)] } else { seq![(K::Alpha, 307int)] } } } else { if i < 310 { seq![(K::Alpha, 307int)] } else { if i < 311 { seq![(K::Alpha, 309int)] } else { seq![(K::Alpha, 309int)] } } } } }
pub closed spec fn rows_26(i: int) -> Seq<(K, int)> { if i < 318 { if i < 315 { if i < 313 { seq![(K::Alpha, 311int)] } else { if i < 314 { seq![(K::Alpha, 312int)] } else { seq![(K::Alnum, 357int), (K::Digit, 360int)] } } } else { if i < 316 { seq![(K::Alnum, 357int), (K::Digit, 360int)] } else { if i < 317 { seq![(K::Sing, 329int)] } else { seq![(K::Sing, 329int)] } } } } else { if i < 321 { if i < 319 { seq![(K::Alpha, 9int)] } else { if i < 320 { seq![(K::Alpha, 318int)] } else { seq![(K::Alpha, 319int)] } } } else { if i < 322 { seq![(K::Alpha, 11int)] } else { if i < 323 { seq![(K::Alpha, 321int)] } else { seq![(K::Alpha, 14int), (K::Lit(0x2du8), 12int)] } } } } }
pub closed spec fn rows_27(i: int) -> Seq<(K, int)> { if i < 330 { if i < 327 { if i < 325 { seq![(K::Alpha, 323int)] } else { if i < 326 { seq![(K::Alnum, 361int), (K::Lit(0x2du8), 327int)] } else { seq![(K::Alnum, 325int)] } } } else { if i < 328 { seq![(K::Alnum, 326int)] } else { if i < 329 { seq![(K::Lit(0x2du8), 364int), (K::Lit(0x2du8), 330int)] } else { seq![(K::Lit(0x2du8), 364int)] } } } } else { if i < 333 { if i < 331 { seq![(K::Sing, 329int)] } else { if i < 332 { seq![(K::Alnum, 365int), (K::Lit(0x2du8), 332int)] } else { seq![(K::Alnum, 331int)] } } } else { if i < 334 { seq![(K::Lit(0x2du8), 368int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { if i < 335 { seq![(K::Lit(0x2du8), 368int)] } else { seq![(K::Sing, 334int)] } } } } }
pub closed spec fn rows_28(i: int) -> Seq<(K, int)> { if i < 342 { if i < 339 { if i < 337 { seq![(K::Alnum, 373int), (K::Digit, 376int)] } else { if i < 338 { seq![(K::Alpha, 377int), (K::Digit, 379int)] } else { seq![(K::Alpha, 77int)] } } } else { if i < 340 { seq![(K::Alpha, 338int)] } else { if i < 341 { seq![(K::Alpha, 339int)] } else { seq![(K::Alpha, 340int)] } } } } else { if i < 345 { if i < 343 { seq![(K::Lit(0x2du8), 381int), (K::Lit(0x2du8), 341int), (K::Lit(0x2du8), 337int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { if i < 344 { seq![(K::Alpha, 342int), (K::Lit(0x2du8), 381int), (K::Lit(0x2du8), 341int), (K::Lit(0x2du8), 337int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { seq![(K::Alpha, 343int)] } } } else { if i < 346 { seq![(K::Alpha, 78int)] } else { if i < 347 { seq![(K::Alpha, 345int)] } else { seq![(K::Alpha, 346int)] } } } } }
pub closed spec fn rows_29(i: int) -> Seq<(K, int)> { if i < 354 { if i < 351 { if i < 349 { seq![(K::Alpha, 382int), (K::Lit(0x2du8), 341int), (K::Lit(0x2du8), 337int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { if i < 350 { seq![(K::Alpha, 348int)] } else { seq![(K::Alpha, 349int)] } } } else { if i < 352 { seq![(K::Alpha, 350int)] } else { if i < 353 { seq![(K::Alpha, 351int)] } else { seq![(K::Alnum, 383int), (K::Lit(0x2du8), 314int)] } } } } else { if i < 357 { if i < 355 { seq![(K::Alnum, 353int)] } else { if i < 356 { seq![(K::Alnum, 354int)] } else { seq![(K::Alnum, 355int)] } } } else { if i < 358 { seq![(K::Alnum, 356int)] } else { if i < 359 { seq![(K::Alnum, 51int)] } else { seq![(K::Alnum, 358int)] } } } } }
pub closed spec fn rows_30(i: int) -> Seq<(K, int)> { if i < 366 { if i < 363 { if i < 361 { seq![(K::Alnum, 359int)] } else { if i < 362 { seq![(K::Alnum, 384int), (K::Lit(0x2du8), 327int)] } else { seq![(K::Alnum, 385int), (K::Lit(0x2du8), 364int), (K::Lit(0x2du8), 330int)] } } } else { if i < 364 { seq![(K::Alnum, 362int)] } else { if i < 365 { seq![(K::Alnum, 363int)] } else { seq![(K::Alnum, 386int), (K::Lit(0x2du8), 332int)] } } } } else { if i < 369 { if i < 367 { seq![(K::Alnum, 387int), (K::Lit(0x2du8), 368int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { if i < 368 { seq![(K::Alnum, 366int)] } else { seq![(K::Alnum, 367int)] } } } else { if i < 370 { seq![(K::Alnum, 388int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { if i < 371 { seq![(K::Alnum, 369int)] } else { seq![(K::Alnum, 370int)] } } } } }
pub closed spec fn rows_31(i: int) -> Seq<(K, int)> { if i < 378 { if i < 375 { if i < 373 { seq![(K::Alnum, 371int)] } else { if i < 374 { seq![(K::Alnum, 372int)] } else { seq![(K::Alnum, 76int)] } } } else { if i < 376 { seq![(K::Alnum, 374int)] } else { if i < 377 { seq![(K::Alnum, 375int)] } else { seq![(K::Alpha, 76int)] } } } } else { if i < 381 { if i < 379 { seq![(K::Digit, 76int)] } else { if i < 380 { seq![(K::Digit, 378int)] } else { seq![(K::Lit(0x2du8), 392int), (K::Lit(0x2du8), 341int), (K::Lit(0x2du8), 337int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } } } else { if i < 382 { seq![(K::Alpha, 394int)] } else { if i < 383 { seq![(K::Alpha, 395int), (K::Lit(0x2du8), 341int), (K::Lit(0x2du8), 337int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { seq![(K::Alnum, 396int), (K::Lit(0x2du8), 314int)] } } } } }
pub closed spec fn rows_32(i: int) -> Seq<(K, int)> { if i < 390 { if i < 387 { if i < 385 { seq![(K::Alnum, 397int), (K::Lit(0x2du8), 327int)] } else { if i < 386 { seq![(K::Alnum, 398int), (K::Lit(0x2du8), 364int), (K::Lit(0x2du8), 330int)] } else { seq![(K::Alnum, 399int), (K::Lit(0x2du8), 332int)] } } } else { if i < 388 { seq![(K::Alnum, 400int), (K::Lit(0x2du8), 368int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { if i < 389 { seq![(K::Alnum, 401int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { seq![(K::Lit(0x2du8), 347int), (K::Lit(0x2du8), 341int), (K::Lit(0x2du8), 337int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } } } } else { if i < 393 { if i < 391 { seq![(K::Alpha, 389int)] } else { if i < 392 { seq![(K::Alpha, 390int)] } else { seq![(K::Alpha, 391int)] } } } else { if i < 394 { seq![(K::Alpha, 380int)] } else { if i < 395 { seq![(K::Alpha, 393int)] } else { seq![(K::Alpha, 78int), (K::Lit(0x2du8), 341int), (K::Lit(0x2du8), 337int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } } } } }
pub closed spec fn rows_33(i: int) -> Seq<(K, int)> { if i < 402 { if i < 399 { if i < 397 { seq![(K::Alnum, 51int), (K::Lit(0x2du8), 314int)] } else { if i < 398 { seq![(K::Alnum, 402int), (K::Lit(0x2du8), 327int)] } else { seq![(K::Alnum, 403int), (K::Lit(0x2du8), 364int), (K::Lit(0x2du8), 330int)] } } } else { if i < 400 { seq![(K::Alnum, 404int), (K::Lit(0x2du8), 332int)] } else { if i < 401 { seq![(K::Alnum, 405int), (K::Lit(0x2du8), 368int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { seq![(K::Alnum, 76int), (K::Lit(0x2du8), 336int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } } } } else { if i < 405 { if i < 403 { seq![(K::Alnum, 406int), (K::Lit(0x2du8), 327int)] } else { if i < 404 { seq![(K::Alnum, 407int), (K::Lit(0x2du8), 364int), (K::Lit(0x2du8), 330int)] } else { seq![(K::Alnum, 408int), (K::Lit(0x2du8), 332int)] } } } else { if i < 406 { seq![(K::Alnum, 409int), (K::Lit(0x2du8), 368int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } else { if i < 407 { seq![(K::Alnum, 61int), (K::Lit(0x2du8), 327int)] } else { seq![(K::Alnum, 410int), (K::Lit(0x2du8), 364int), (K::Lit(0x2du8), 330int)] } } } } }
pub closed spec fn rows_34(i: int) -> Seq<(K, int)> { if i < 410 { if i < 409 { seq![(K::Alnum, 411int), (K::Lit(0x2du8), 332int)] } else { seq![(K::Alnum, 412int), (K::Lit(0x2du8), 368int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } } else { if i < 411 { seq![(K::Alnum, 328int), (K::Lit(0x2du8), 364int), (K::Lit(0x2du8), 330int)] } else { if i < 412 { seq![(K::Alnum, 70int), (K::Lit(0x2du8), 332int)] } else { seq![(K::Alnum, 333int), (K::Lit(0x2du8), 368int), (K::Lit(0x2du8), 335int), (K::Lit(0x2du8), 72int)] } } } }
#[verifier::memoize] pub closed spec fn rows(i: int) -> Seq<(K, int)> { if i < 204 { if i < 96 { if i < 48 { if i < 24 { if i < 12 { rows_0(i) } else { rows_1(i) } } else { if i < 36 { rows_2(i) } else { rows_3(i) } } } else { if i < 72 { if i < 60 { rows_4(i) } else { rows_5(i) } } else { if i < 84 { rows_6(i) } else { rows_7(i) } } } } else { if i < 144 { if i < 120 { if i < 108 { rows_8(i) } else { rows_9(i) } } else { if i < 132 { rows_10(i) } else { rows_11(i) } } } else { if i < 168 { if i < 156 { rows_12(i) } else { rows_13(i) } } else { if i < 180 { rows_14(i) } else { if i < 192 { rows_15(i) } else { rows_16(i) } } } } } } else { if i < 312 { if i < 252 { if i < 228 { if i < 216 { rows_17(i) } else { rows_18(i) } } else { if i < 240 { rows_19(i) } else { rows_20(i) } } } else { if i < 276 { if i < 264 { rows_21(i) } else { rows_22(i) } } else { if i < 288 { rows_23(i) } else { if i < 300 { rows_24(i) } else { rows_25(i) } } } } } else { if i < 360 { if i < 336 { if i < 324 { rows_26(i) } else { rows_27(i) } } else { if i < 348 { rows_28(i) } else { rows_29(i) } } } else { if i < 384 { if i < 372 { rows_30(i) } else { rows_31(i) } } else { if i < 396 { rows_32(i) } else { if i < 408 { rows_33(i) } else { rows_34(i) } } } } } } }
pub closed spec fn eps_0(i: int) -> bool { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { false } else { true } } else { if i < 3 { true } else { false } } } else { if i < 6 { if i < 5 { false } else { false } } else { if i < 7 { false } else { false } } } } else { if i < 12 { if i < 10 { if i < 9 { false } else { true } } else { if i < 11 { false } else { true } } } else { if i < 14 { if i < 13 { false } else { false } } else { if i < 15 { true } else { false } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { false } else { true } } else { if i < 19 { false } else { true } } } else { if i < 22 { if i < 21 { false } else { false } } else { if i < 23 { false } else { false } } } } else { if i < 28 { if i < 26 { if i < 25 { false } else { false } } else { if i < 27 { false } else { false } } } else { if i < 30 { if i < 29 { true } else { false } } else { if i < 31 { false } else { false } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { false } else { false } } else { if i < 35 { true } else { false } } } else { if i < 38 { if i < 37 { true } else { false } } else { if i < 39 { true } else { false } } } } else { if i < 44 { if i < 42 { if i < 41 { true } else { false } } else { if i < 43 { false } else { false } } } else { if i < 46 { if i < 45 { false } else { false } } else { if i < 47 { false } else { false } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { false } else { false } } else { if i < 51 { false } else { true } } } else { if i < 54 { if i < 53 { false } else { true } } else { if i < 55 { false } else { true } } } } else { if i < 60 { if i < 58 { if i < 57 { false } else { true } } else { if i < 59 { false } else { false } } } else { if i < 62 { if i < 61 { false } else { true } } else { if i < 63 { false } else { false } } } } } } }
pub closed spec fn eps_1(i: int) -> bool { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { false } else { true } } else { if i < 67 { false } else { true } } } else { if i < 70 { if i < 69 { false } else { false } } else { if i < 71 { true } else { false } } } } else { if i < 76 { if i < 74 { if i < 73 { false } else { false } } else { if i < 75 { true } else { true } } } else { if i < 78 { if i < 77 { true } else { true } } else { if i < 79 { true } else { false } } } } } else { if i < 88 { if i < 84 { if i < 82 { if i < 81 { false } else { false } } else { if i < 83 { false } else { false } } } else { if i < 86 { if i < 85 { false } else { false } } else { if i < 87 { false } else { false } } } } else { if i < 92 { if i < 90 { if i < 89 { false } else { false } } else { if i < 91 { false } else { false } } } else { if i < 94 { if i < 93 { false } else { false } } else { if i < 95 { false } else { false } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { false } else { false } } else { if i < 99 { false } else { false } } } else { if i < 102 { if i < 101 { false } else { false } } else { if i < 103 { false } else { false } } } } else { if i < 108 { if i < 106 { if i < 105 { false } else { false } } else { if i < 107 { false } else { false } } } else { if i < 110 { if i < 109 { false } else { false } } else { if i < 111 { false } else { false } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { false } else { false } } else { if i < 115 { false } else { false } } } else { if i < 118 { if i < 117 { false } else { false } } else { if i < 119 { false } else { false } } } } else { if i < 124 { if i < 122 { if i < 121 { false } else { false } } else { if i < 123 { false } else { false } } } else { if i < 126 { if i < 125 { false } else { false } } else { if i < 127 { false } else { false } } } } } } }
pub closed spec fn eps_2(i: int) -> bool { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { false } else { false } } else { if i < 131 { false } else { false } } } else { if i < 134 { if i < 133 { false } else { false } } else { if i < 135 { false } else { false } } } } else { if i < 140 { if i < 138 { if i < 137 { false } else { false } } else { if i < 139 { false } else { false } } } else { if i < 142 { if i < 141 { false } else { false } } else { if i < 143 { false } else { false } } } } } else { if i < 152 { if i < 148 { if i < 146 { if i < 145 { false } else { false } } else { if i < 147 { false } else { false } } } else { if i < 150 { if i < 149 { false } else { false } } else { if i < 151 { false } else { false } } } } else { if i < 156 { if i < 154 { if i < 153 { false } else { false } } else { if i < 155 { false } else { false } } } else { if i < 158 { if i < 157 { false } else { false } } else { if i < 159 { false } else { false } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { false } else { false } } else { if i < 163 { false } else { false } } } else { if i < 166 { if i < 165 { false } else { false } } else { if i < 167 { false } else { false } } } } else { if i < 172 { if i < 170 { if i < 169 { false } else { false } } else { if i < 171 { false } else { false } } } else { if i < 174 { if i < 173 { false } else { false } } else { if i < 175 { false } else { false } } } } } else { if i < 184 { if i < 180 { if i < 178 { if i < 177 { false } else { false } } else { if i < 179 { false } else { false } } } else { if i < 182 { if i < 181 { false } else { false } } else { if i < 183 { false } else { false } } } } else { if i < 188 { if i < 186 { if i < 185 { false } else { false } } else { if i < 187 { false } else { false } } } else { if i < 190 { if i < 189 { false } else { false } } else { if i < 191 { false } else { false } } } } } } }
pub closed spec fn eps_3(i: int) -> bool { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { if i < 193 { false } else { false } } else { if i < 195 { false } else { false } } } else { if i < 198 { if i < 197 { false } else { false } } else { if i < 199 { false } else { false } } } } else { if i < 204 { if i < 202 { if i < 201 { false } else { false } } else { if i < 203 { false } else { false } } } else { if i < 206 { if i < 205 { false } else { false } } else { if i < 207 { false } else { false } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { false } else { false } } else { if i < 211 { false } else { false } } } else { if i < 214 { if i < 213 { false } else { false } } else { if i < 215 { false } else { false } } } } else { if i < 220 { if i < 218 { if i < 217 { false } else { false } } else { if i < 219 { false } else { false } } } else { if i < 222 { if i < 221 { false } else { false } } else { if i < 223 { false } else { false } } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { false } else { false } } else { if i < 227 { false } else { false } } } else { if i < 230 { if i < 229 { false } else { false } } else { if i < 231 { false } else { false } } } } else { if i < 236 { if i < 234 { if i < 233 { false } else { false } } else { if i < 235 { false } else { false } } } else { if i < 238 { if i < 237 { false } else { false } } else { if i < 239 { false } else { false } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { false } else { false } } else { if i < 243 { false } else { false } } } else { if i < 246 { if i < 245 { false } else { false } } else { if i < 247 { false } else { false } } } } else { if i < 252 { if i < 250 { if i < 249 { false } else { false } } else { if i < 251 { false } else { false } } } else { if i < 254 { if i < 253 { false } else { false } } else { if i < 255 { false } else { false } } } } } } }
pub closed spec fn eps_4(i: int) -> bool { if i < 288 { if i < 272 { if i < 264 { if i < 260 { if i < 258 { if i < 257 { false } else { false } } else { if i < 259 { false } else { false } } } else { if i < 262 { if i < 261 { false } else { false } } else { if i < 263 { false } else { false } } } } else { if i < 268 { if i < 266 { if i < 265 { false } else { false } } else { if i < 267 { false } else { false } } } else { if i < 270 { if i < 269 { false } else { false } } else { if i < 271 { false } else { false } } } } } else { if i < 280 { if i < 276 { if i < 274 { if i < 273 { false } else { false } } else { if i < 275 { false } else { false } } } else { if i < 278 { if i < 277 { false } else { false } } else { if i < 279 { false } else { false } } } } else { if i < 284 { if i < 282 { if i < 281 { false } else { false } } else { if i < 283 { false } else { false } } } else { if i < 286 { if i < 285 { false } else { false } } else { if i < 287 { false } else { false } } } } } } else { if i < 304 { if i < 296 { if i < 292 { if i < 290 { if i < 289 { false } else { false } } else { if i < 291 { false } else { false } } } else { if i < 294 { if i < 293 { false } else { false } } else { if i < 295 { false } else { false } } } } else { if i < 300 { if i < 298 { if i < 297 { false } else { false } } else { if i < 299 { false } else { false } } } else { if i < 302 { if i < 301 { false } else { false } } else { if i < 303 { false } else { false } } } } } else { if i < 312 { if i < 308 { if i < 306 { if i < 305 { false } else { false } } else { if i < 307 { false } else { true } } } else { if i < 310 { if i < 309 { false } else { true } } else { if i < 311 { false } else { true } } } } else { if i < 316 { if i < 314 { if i < 313 { false } else { false } } else { if i < 315 { false } else { true } } } else { if i < 318 { if i < 317 { false } else { true } } else { if i < 319 { false } else { false } } } } } } }
pub closed spec fn eps_5(i: int) -> bool { if i < 352 { if i < 336 { if i < 328 { if i < 324 { if i < 322 { if i < 321 { false } else { false } } else { if i < 323 { false } else { true } } } else { if i < 326 { if i < 325 { false } else { true } } else { if i < 327 { false } else { false } } } } else { if i < 332 { if i < 330 { if i < 329 { true } else { false } } else { if i < 331 { false } else { true } } } else { if i < 334 { if i < 333 { false } else { true } } else { if i < 335 { false } else { false } } } } } else { if i < 344 { if i < 340 { if i < 338 { if i < 337 { false } else { false } } else { if i < 339 { false } else { false } } } else { if i < 342 { if i < 341 { false } else { false } } else { if i < 343 { true } else { true } } } } else { if i < 348 { if i < 346 { if i < 345 { false } else { false } } else { if i < 347 { false } else { false } } } else { if i < 350 { if i < 349 { true } else { false } } else { if i < 351 { false } else { false } } } } } } else { if i < 368 { if i < 360 { if i < 356 { if i < 354 { if i < 353 { false } else { true } } else { if i < 355 { false } else { false } } } else { if i < 358 { if i < 357 { false } else { false } } else { if i < 359 { false } else { false } } } } else { if i < 364 { if i < 362 { if i < 361 { false } else { true } } else { if i < 363 { true } else { false } } } else { if i < 366 { if i < 365 { false } else { true } } else { if i < 367 { true } else { false } } } } } else { if i < 376 { if i < 372 { if i < 370 { if i < 369 { false } else { true } } else { if i < 371 { false } else { false } } } else { if i < 374 { if i < 373 { false } else { false } } else { if i < 375 { false } else { false } } } } else { if i < 380 { if i < 378 { if i < 377 { false } else { false } } else { if i < 379 { false } else { false } } } else { if i < 382 { if i < 381 { true } else { false } } else { if i < 383 { true } else { true } } } } } } }
pub closed spec fn eps_6(i: int) -> bool { if i < 398 { if i < 391 { if i < 387 { if i < 385 { true } else { if i < 386 { true } else { true } } } else { if i < 389 { if i < 388 { true } else { true } } else { if i < 390 { true } else { false } } } } else { if i < 394 { if i < 392 { false } else { if i < 393 { false } else { false } } } else { if i < 396 { if i < 395 { false } else { true } } else { if i < 397 { true } else { true } } } } } else { if i < 405 { if i < 401 { if i < 399 { true } else { if i < 400 { true } else { true } } } else { if i < 403 { if i < 402 { true } else { true } } else { if i < 404 { true } else { true } } } } else { if i < 409 { if i < 407 { if i < 406 { true } else { true } } else { if i < 408 { true } else { true } } } else { if i < 411 { if i < 410 { true } else { true } } else { if i < 412 { true } else { true } } } } } }
#[verifier::memoize] pub closed spec fn eps(i: int) -> bool { if i < 192 { if i < 64 { eps_0(i) } else { if i < 128 { eps_1(i) } else { eps_2(i) } } } else { if i < 320 { if i < 256 { eps_3(i) } else { eps_4(i) } } else { if i < 384 { eps_5(i) } else { eps_6(i) } } } }
pub open spec fn n_node() -> int { 413 }
/// subset states
pub closed spec fn sset_0(d: int) -> Seq<int> { if d < 6 { if d < 3 { if d < 1 { seq![306int] } else { if d < 2 { seq![72int] } else { seq![68int] } } } else { if d < 4 { seq![79int] } else { if d < 5 { seq![26int] } else { seq![313int] } } } } else { if d < 9 { if d < 7 { seq![12int] } else { if d < 8 { seq![7int] } else { seq![16int] } } } else { if d < 10 { seq![32int] } else { if d < 11 { seq![49int] } else { seq![315int] } } } } }
pub closed spec fn sset_1(d: int) -> Seq<int> { if d < 18 { if d < 15 { if d < 13 { seq![63int] } else { if d < 14 { seq![59int] } else { seq![317int] } } } else { if d < 16 { seq![221int, 344int, 347int, 352int] } else { if d < 17 { seq![344int, 347int, 352int] } else { seq![231int, 344int, 347int, 352int] } } } } else { if d < 21 { if d < 19 { seq![92int, 344int, 347int, 352int] } else { if d < 20 { seq![99int, 104int, 116int, 127int, 132int, 141int, 145int, 151int, 160int, 166int, 170int, 175int, 180int, 344int, 347int, 352int] } else { seq![236int, 241int, 344int, 347int, 352int] } } } else { if d < 22 { seq![191int, 201int, 212int, 344int, 347int, 352int] } else { if d < 23 { seq![71int, 344int, 347int, 352int] } else { seq![249int, 256int, 261int, 269int, 276int, 344int, 347int, 352int] } } } } }
pub closed spec fn sset_2(d: int) -> Seq<int> { if d < 30 { if d < 27 { if d < 25 { seq![71int] } else { if d < 26 { seq![67int] } else { seq![7int, 23int, 324int] } } } else { if d < 28 { seq![312int] } else { if d < 29 { seq![322int] } else { seq![6int] } } } } else { if d < 33 { if d < 31 { seq![0int] } else { if d < 32 { seq![30int] } else { seq![44int] } } } else { if d < 34 { seq![44int, 47int] } else { if d < 35 { seq![357int] } else { seq![357int, 360int] } } } } }
pub closed spec fn sset_3(d: int) -> Seq<int> { if d < 42 { if d < 39 { if d < 37 { seq![62int] } else { if d < 38 { seq![58int] } else { seq![329int] } } } else { if d < 40 { seq![343int, 346int, 351int] } else { if d < 41 { seq![220int, 343int, 346int, 351int] } else { seq![230int, 343int, 346int, 351int] } } } } else { if d < 45 { if d < 43 { seq![91int, 343int, 346int, 351int] } else { if d < 44 { seq![98int, 103int, 115int, 126int, 131int, 140int, 144int, 150int, 159int, 165int, 169int, 174int, 179int] } else { seq![235int, 240int, 343int, 346int, 351int] } } } else { if d < 46 { seq![190int, 200int, 211int, 343int, 346int, 351int] } else { if d < 47 { seq![332int] } else { seq![248int, 255int, 260int, 268int, 275int, 343int, 346int, 351int] } } } } }
pub closed spec fn sset_4(d: int) -> Seq<int> { if d < 54 { if d < 51 { if d < 49 { seq![57int] } else { if d < 50 { seq![6int, 22int, 323int] } else { seq![311int] } } } else { if d < 52 { seq![321int] } else { if d < 53 { seq![1int] } else { seq![29int] } } } } else { if d < 57 { if d < 55 { seq![43int] } else { if d < 56 { seq![43int, 46int] } else { seq![356int] } } } else { if d < 58 { seq![356int, 359int] } else { if d < 59 { seq![327int] } else { seq![364int] } } } } }
pub closed spec fn sset_5(d: int) -> Seq<int> { if d < 66 { if d < 63 { if d < 61 { seq![342int, 345int, 350int] } else { if d < 62 { seq![72int, 335int, 336int, 337int, 341int, 381int] } else { seq![219int, 342int, 345int, 350int] } } } else { if d < 64 { seq![229int, 342int, 345int, 350int] } else { if d < 65 { seq![72int, 90int, 335int, 336int, 337int, 341int, 381int] } else { seq![97int] } } } } else { if d < 69 { if d < 67 { seq![102int] } else { if d < 68 { seq![114int] } else { seq![125int] } } } else { if d < 70 { seq![130int] } else { if d < 71 { seq![139int] } else { seq![143int] } } } } }
pub closed spec fn sset_6(d: int) -> Seq<int> { if d < 78 { if d < 75 { if d < 73 { seq![149int] } else { if d < 74 { seq![158int] } else { seq![164int] } } } else { if d < 76 { seq![168int, 173int, 178int] } else { if d < 77 { seq![72int, 234int, 239int, 335int, 336int, 337int, 341int, 381int] } else { seq![189int, 199int, 210int, 342int, 345int, 350int] } } } } else { if d < 81 { if d < 79 { seq![331int] } else { if d < 80 { seq![72int, 247int, 254int, 259int, 267int, 274int, 335int, 336int, 337int, 341int, 381int] } else { seq![55int] } } } else { if d < 82 { seq![0int, 14int, 21int] } else { if d < 83 { seq![309int] } else { seq![11int] } } } } }
pub closed spec fn sset_7(d: int) -> Seq<int> { if d < 90 { if d < 87 { if d < 85 { seq![42int] } else { if d < 86 { seq![35int, 42int] } else { seq![355int] } } } else { if d < 88 { seq![355int, 358int] } else { if d < 89 { seq![326int] } else { seq![363int] } } } } else { if d < 93 { if d < 91 { seq![78int, 349int] } else { if d < 92 { seq![334int, 340int, 373int, 377int, 394int] } else { seq![71int, 340int, 373int, 377int, 394int] } } } else { if d < 94 { seq![334int, 373int, 376int, 379int] } else { if d < 95 { seq![72int, 218int, 335int, 336int, 337int, 341int, 381int] } else { seq![72int, 228int, 335int, 336int, 337int, 341int, 381int] } } } } }
pub closed spec fn sset_8(d: int) -> Seq<int> { if d < 102 { if d < 99 { if d < 97 { seq![89int, 334int, 340int, 373int, 377int, 394int] } else { if d < 98 { seq![94int] } else { seq![81int] } } } else { if d < 100 { seq![113int] } else { if d < 101 { seq![124int] } else { seq![129int] } } } } else { if d < 105 { if d < 103 { seq![138int] } else { if d < 104 { seq![66int] } else { seq![148int] } } } else { if d < 106 { seq![157int] } else { if d < 107 { seq![84int, 172int] } else { seq![107int] } } } } }
pub closed spec fn sset_9(d: int) -> Seq<int> { if d < 114 { if d < 111 { if d < 109 { seq![233int, 334int, 340int, 373int, 377int, 394int] } else { if d < 110 { seq![238int, 334int, 340int, 373int, 377int, 394int] } else { seq![72int, 188int, 198int, 209int, 335int, 336int, 337int, 341int, 381int] } } } else { if d < 112 { seq![365int] } else { if d < 113 { seq![246int, 334int, 340int, 373int, 377int, 394int] } else { seq![253int, 334int, 340int, 373int, 377int, 394int] } } } } else { if d < 117 { if d < 115 { seq![258int, 266int, 334int, 340int, 373int, 377int, 394int] } else { if d < 116 { seq![71int, 273int, 340int, 373int, 377int, 394int] } else { seq![53int] } } } else { if d < 118 { seq![1int, 20int] } else { if d < 119 { seq![307int] } else { seq![320int] } } } } }
pub closed spec fn sset_10(d: int) -> Seq<int> { if d < 126 { if d < 123 { if d < 121 { seq![41int] } else { if d < 122 { seq![1int, 41int] } else { seq![354int] } } } else { if d < 124 { seq![51int, 354int] } else { if d < 125 { seq![325int] } else { seq![362int] } } } } else { if d < 129 { if d < 127 { seq![348int] } else { if d < 128 { seq![72int, 335int, 336int, 337int, 341int] } else { seq![76int, 339int, 372int, 393int] } } } else { if d < 130 { seq![372int] } else { if d < 131 { seq![368int] } else { seq![372int, 375int] } } } } }
pub closed spec fn sset_11(d: int) -> Seq<int> { if d < 138 { if d < 135 { if d < 133 { seq![372int, 375int, 378int] } else { if d < 134 { seq![217int, 334int, 340int, 373int, 377int, 394int] } else { seq![227int, 334int, 340int, 373int, 377int, 394int] } } } else { if d < 136 { seq![76int, 88int, 339int, 372int, 393int] } else { if d < 137 { seq![112int] } else { seq![123int] } } } } else { if d < 141 { if d < 139 { seq![137int] } else { if d < 140 { seq![147int] } else { seq![156int] } } } else { if d < 142 { seq![76int, 129int, 339int, 372int, 393int] } else { if d < 143 { seq![76int, 81int, 339int, 372int, 393int] } else { seq![187int, 197int, 334int, 340int, 373int, 377int, 394int] } } } } }
pub closed spec fn sset_12(d: int) -> Seq<int> { if d < 150 { if d < 147 { if d < 145 { seq![208int, 334int, 340int, 373int, 377int, 394int] } else { if d < 146 { seq![386int] } else { seq![76int, 245int, 339int, 372int, 393int] } } } else { if d < 148 { seq![76int, 252int, 339int, 372int, 393int] } else { if d < 149 { seq![76int, 81int, 265int, 339int, 372int, 393int] } else { seq![76int, 272int, 339int, 372int, 393int] } } } } else { if d < 153 { if d < 151 { seq![40int] } else { if d < 152 { seq![19int] } else { seq![319int] } } } else { if d < 154 { seq![353int] } else { if d < 155 { seq![314int] } else { seq![361int] } } } } }
pub closed spec fn sset_13(d: int) -> Seq<int> { if d < 162 { if d < 159 { if d < 157 { seq![385int] } else { if d < 158 { seq![330int, 364int] } else { seq![382int] } } } else { if d < 160 { seq![334int, 340int, 373int, 377int] } else { if d < 161 { seq![71int, 340int, 373int, 377int] } else { seq![338int, 371int, 380int] } } } } else { if d < 165 { if d < 163 { seq![371int] } else { if d < 164 { seq![72int, 335int, 336int] } else { seq![367int] } } } else { if d < 166 { seq![371int, 374int] } else { if d < 167 { seq![76int, 371int, 374int] } else { seq![76int, 216int, 339int, 372int, 393int] } } } } }
pub closed spec fn sset_14(d: int) -> Seq<int> { if d < 174 { if d < 171 { if d < 169 { seq![76int, 226int, 339int, 372int, 393int] } else { if d < 170 { seq![72int, 87int, 335int, 336int] } else { seq![111int] } } } else { if d < 172 { seq![122int] } else { if d < 173 { seq![136int] } else { seq![84int] } } } } else { if d < 177 { if d < 175 { seq![155int] } else { if d < 176 { seq![1int, 338int, 371int, 380int] } else { seq![76int, 186int, 196int, 339int, 372int, 393int] } } } else { if d < 178 { seq![76int, 207int, 339int, 372int, 393int] } else { if d < 179 { seq![399int] } else { seq![244int, 338int, 371int, 380int] } } } } }
pub closed spec fn sset_15(d: int) -> Seq<int> { if d < 186 { if d < 183 { if d < 181 { seq![251int, 338int, 371int, 380int] } else { if d < 182 { seq![1int, 264int, 338int, 371int, 380int] } else { seq![271int, 338int, 371int, 380int] } } } else { if d < 184 { seq![38int] } else { if d < 185 { seq![17int] } else { seq![318int] } } } } else { if d < 189 { if d < 187 { seq![383int] } else { if d < 188 { seq![384int] } else { seq![398int] } } } else { if d < 190 { seq![329int, 363int] } else { if d < 191 { seq![395int] } else { seq![76int, 339int, 372int] } } } } }
pub closed spec fn sset_16(d: int) -> Seq<int> { if d < 198 { if d < 195 { if d < 193 { seq![77int, 370int] } else { if d < 194 { seq![370int] } else { seq![72int, 335int, 336int, 337int, 341int, 392int] } } } else { if d < 196 { seq![334int, 373int] } else { if d < 197 { seq![71int, 373int] } else { seq![334int, 373int, 376int] } } } } else { if d < 201 { if d < 199 { seq![366int] } else { if d < 200 { seq![76int, 370int] } else { seq![215int, 338int, 371int, 380int] } } } else { if d < 202 { seq![225int, 338int, 371int, 380int] } else { if d < 203 { seq![86int, 334int, 373int] } else { seq![110int] } } } } }
pub closed spec fn sset_17(d: int) -> Seq<int> { if d < 210 { if d < 207 { if d < 205 { seq![121int] } else { if d < 206 { seq![135int] } else { seq![72int, 185int, 195int, 335int, 336int] } } } else { if d < 208 { seq![72int, 206int, 335int, 336int] } else { if d < 209 { seq![404int] } else { seq![77int, 107int, 370int] } } } } else { if d < 213 { if d < 211 { seq![77int, 95int, 370int] } else { if d < 212 { seq![72int, 263int, 335int, 336int, 337int, 341int, 392int] } else { seq![77int, 134int, 370int] } } } else { if d < 214 { seq![36int] } else { if d < 215 { seq![2int] } else { seq![9int] } } } } }
pub closed spec fn sset_18(d: int) -> Seq<int> { if d < 222 { if d < 219 { if d < 217 { seq![396int] } else { if d < 218 { seq![397int] } else { seq![403int] } } } else { if d < 220 { seq![78int] } else { if d < 221 { seq![338int, 371int] } else { seq![369int] } } } } else { if d < 225 { if d < 223 { seq![72int, 335int, 336int, 337int] } else { if d < 224 { seq![334int, 340int, 373int, 377int, 391int] } else { seq![71int, 340int, 373int, 377int, 391int] } } } else { if d < 226 { seq![387int] } else { if d < 227 { seq![72int, 335int, 368int] } else { seq![77int, 120int, 370int] } } } } }
pub closed spec fn sset_19(d: int) -> Seq<int> { if d < 234 { if d < 231 { if d < 229 { seq![77int, 224int, 370int] } else { if d < 230 { seq![85int, 372int] } else { seq![109int] } } } else { if d < 232 { seq![120int] } else { if d < 233 { seq![184int, 334int, 373int] } else { seq![194int, 334int, 373int] } } } } else { if d < 237 { if d < 235 { seq![182int, 334int, 373int] } else { if d < 236 { seq![408int] } else { seq![1int, 369int] } } } else { if d < 238 { seq![120int, 334int, 340int, 373int, 377int, 391int] } else { if d < 239 { seq![51int] } else { seq![402int] } } } } }
pub closed spec fn sset_20(d: int) -> Seq<int> { if d < 246 { if d < 243 { if d < 241 { seq![407int] } else { if d < 242 { seq![388int] } else { seq![334int, 373int, 377int] } } } else { if d < 244 { seq![71int, 373int, 377int] } else { if d < 245 { seq![76int, 339int, 372int, 390int] } else { seq![400int] } } } } else { if d < 249 { if d < 247 { seq![334int, 367int] } else { if d < 248 { seq![71int, 367int] } else { seq![81int, 369int] } } } else { if d < 250 { seq![223int, 369int] } else { if d < 251 { seq![1int, 371int] } else { seq![1int, 372int] } } } } }
pub closed spec fn sset_21(d: int) -> Seq<int> { if d < 258 { if d < 255 { if d < 253 { seq![411int] } else { if d < 254 { seq![76int, 81int, 339int, 372int, 390int] } else { seq![406int] } } } else { if d < 256 { seq![410int] } else { if d < 257 { seq![401int] } else { seq![76int, 372int] } } } } else { if d < 261 { if d < 259 { seq![338int, 371int, 389int] } else { if d < 260 { seq![405int] } else { seq![1int, 388int] } } } else { if d < 262 { seq![119int, 388int] } else { if d < 263 { seq![70int] } else { seq![1int, 338int, 371int, 389int] } } } } }
pub closed spec fn sset_22(d: int) -> Seq<int> { if d < 270 { if d < 267 { if d < 265 { seq![61int] } else { if d < 266 { seq![328int] } else { seq![76int] } } } else { if d < 268 { seq![72int, 335int, 336int, 337int, 341int, 347int] } else { if d < 269 { seq![409int] } else { seq![1int, 401int] } } } } else { if d < 273 { if d < 271 { seq![334int, 340int, 346int, 373int, 377int] } else { if d < 272 { seq![71int, 340int, 346int, 373int, 377int] } else { seq![412int] } } } else { if d < 274 { seq![76int, 339int, 345int, 372int] } else { if d < 275 { seq![333int] } else { seq![78int, 338int, 371int] } } } } }
#[verifier::memoize] pub closed spec fn sset(d: int) -> Seq<int> { if d < 132 { if d < 60 { if d < 24 { if d < 12 { sset_0(d) } else { sset_1(d) } } else { if d < 36 { sset_2(d) } else { if d < 48 { sset_3(d) } else { sset_4(d) } } } } else { if d < 96 { if d < 72 { sset_5(d) } else { if d < 84 { sset_6(d) } else { sset_7(d) } } } else { if d < 108 { sset_8(d) } else { if d < 120 { sset_9(d) } else { sset_10(d) } } } } } else { if d < 204 { if d < 168 { if d < 144 { sset_11(d) } else { if d < 156 { sset_12(d) } else { sset_13(d) } } } else { if d < 180 { sset_14(d) } else { if d < 192 { sset_15(d) } else { sset_16(d) } } } } else { if d < 240 { if d < 216 { sset_17(d) } else { if d < 228 { sset_18(d) } else { sset_19(d) } } } else { if d < 252 { sset_20(d) } else { if d < 264 { sset_21(d) } else { sset_22(d) } } } } } }
pub closed spec fn strans_0(d: int, k: int) -> int { if d < 6 { if d < 3 { if d < 1 { if k < 13 { if k < 4 { if k < 2 { if k < 1 { 15 } else { 16 } } else { if k < 3 { 17 } else { 16 } } } else { if k < 8 { if k < 5 { 18 } else { 16 } } else { if k < 9 { 19 } else { 16 } } } } else { if k < 23 { if k < 18 { if k < 14 { 20 } else { 16 } } else { if k < 19 { 21 } else { 16 } } } else { if k < 25 { if k < 24 { 22 } else { 16 } } else { if k < 26 { 23 } else { -1 } } } } } else { if d < 2 { if k < 23 { -1 } else { if k < 24 { 24 } else { -1 } } } else { if k < 27 { 25 } else { -1 } } } } else { if d < 4 { if k < 26 { 16 } else { -1 } } else { if d < 5 { if k < 26 { 26 } else { -1 } } else { if k < 26 { 27 } else { -1 } } } } } else { if d < 9 { if d < 7 { if k < 26 { 28 } else { -1 } } else { if d < 8 { if k < 26 { 29 } else { -1 } } else { if k < 26 { 7 } else { -1 } } } } else { if d < 10 { if k < 26 { 30 } else { if k < 27 { 31 } else { -1 } } } else { if d < 11 { if k < 26 { 32 } else { if k < 27 { 33 } else { -1 } } } else { if k < 26 { 34 } else { if k < 27 { 35 } else { -1 } } } } } } }
pub closed spec fn strans_1(d: int, k: int) -> int { if d < 18 { if d < 15 { if d < 13 { if k < 24 { if k < 23 { 36 } else { -1 } } else { if k < 27 { 36 } else { -1 } } } else { if d < 14 { if k < 27 { 37 } else { -1 } } else { if k < 24 { if k < 23 { 38 } else { -1 } } else { if k < 27 { 38 } else { -1 } } } } } else { if d < 16 { if k < 18 { if k < 17 { 39 } else { 40 } } else { if k < 26 { 39 } else { -1 } } } else { if d < 17 { if k < 26 { 39 } else { -1 } } else { if k < 5 { if k < 4 { 39 } else { 41 } } else { if k < 26 { 39 } else { -1 } } } } } } else { if d < 21 { if d < 19 { if k < 14 { if k < 13 { 39 } else { 42 } } else { if k < 26 { 39 } else { -1 } } } else { if d < 20 { if k < 27 { if k < 26 { 39 } else { -1 } } else { if k < 28 { 43 } else { -1 } } } else { if k < 15 { if k < 14 { 39 } else { 44 } } else { if k < 26 { 39 } else { -1 } } } } } else { if d < 22 { if k < 7 { if k < 6 { 39 } else { 45 } } else { if k < 26 { 39 } else { -1 } } } else { if d < 23 { if k < 27 { if k < 26 { 39 } else { -1 } } else { if k < 28 { 46 } else { -1 } } } else { if k < 8 { if k < 7 { 39 } else { 47 } } else { if k < 26 { 39 } else { -1 } } } } } } }
pub closed spec fn strans_2(d: int, k: int) -> int { if d < 30 { if d < 27 { if d < 25 { if k < 27 { -1 } else { if k < 28 { 46 } else { -1 } } } else { if d < 26 { if k < 27 { 48 } else { -1 } } else { if k < 26 { 49 } else { -1 } } } } else { if d < 28 { if k < 26 { 50 } else { -1 } } else { if d < 29 { if k < 26 { 51 } else { -1 } } else { if k < 26 { 30 } else { -1 } } } } } else { if d < 33 { if d < 31 { if k < 26 { 52 } else { -1 } } else { if d < 32 { if k < 26 { -1 } else { if k < 27 { 53 } else { -1 } } } else { if k < 27 { 54 } else { -1 } } } } else { if d < 34 { if k < 27 { 55 } else { -1 } } else { if d < 35 { if k < 27 { 56 } else { -1 } } else { if k < 27 { 57 } else { -1 } } } } } }
pub closed spec fn strans_3(d: int, k: int) -> int { if d < 42 { if d < 39 { if d < 37 { if k < 27 { -1 } else { if k < 28 { 58 } else { -1 } } } else { if d < 38 { if k < 27 { 48 } else { -1 } } else { if k < 27 { -1 } else { if k < 28 { 59 } else { -1 } } } } } else { if d < 40 { if k < 27 { if k < 26 { 60 } else { -1 } } else { if k < 28 { 61 } else { -1 } } } else { if d < 41 { if k < 26 { if k < 19 { 60 } else { if k < 20 { 62 } else { 60 } } } else { if k < 27 { -1 } else { if k < 28 { 61 } else { -1 } } } } else { if k < 26 { if k < 11 { 60 } else { if k < 12 { 63 } else { 60 } } } else { if k < 27 { -1 } else { if k < 28 { 61 } else { -1 } } } } } } } else { if d < 45 { if d < 43 { if k < 27 { if k < 26 { 60 } else { -1 } } else { if k < 28 { 64 } else { -1 } } } else { if d < 44 { if k < 10 { if k < 4 { if k < 2 { if k < 1 { 65 } else { 66 } } else { if k < 3 { -1 } else { 67 } } } else { if k < 7 { if k < 5 { 68 } else { -1 } } else { if k < 8 { 69 } else { -1 } } } } else { if k < 14 { if k < 12 { if k < 11 { 70 } else { 71 } } else { if k < 13 { 72 } else { 73 } } } else { if k < 16 { if k < 15 { -1 } else { 74 } } else { if k < 19 { -1 } else { if k < 20 { 75 } else { -1 } } } } } } else { if k < 27 { if k < 26 { 60 } else { -1 } } else { if k < 28 { 76 } else { -1 } } } } } else { if d < 46 { if k < 26 { if k < 13 { 60 } else { if k < 14 { 77 } else { 60 } } } else { if k < 27 { -1 } else { if k < 28 { 61 } else { -1 } } } } else { if d < 47 { if k < 27 { 78 } else { -1 } } else { if k < 27 { if k < 26 { 60 } else { -1 } } else { if k < 28 { 79 } else { -1 } } } } } } }
pub closed spec fn strans_4(d: int, k: int) -> int { if d < 54 { if d < 51 { if d < 49 { if k < 27 { 80 } else { -1 } } else { if d < 50 { if k < 27 { if k < 26 { 81 } else { -1 } } else { if k < 28 { 6 } else { -1 } } } else { if k < 26 { 82 } else { -1 } } } } else { if d < 52 { if k < 26 { 83 } else { -1 } } else { if d < 53 { -1 } else { if k < 26 { -1 } else { if k < 27 { 52 } else { -1 } } } } } } else { if d < 57 { if d < 55 { if k < 27 { 84 } else { -1 } } else { if d < 56 { if k < 27 { 85 } else { -1 } } else { if k < 27 { 86 } else { -1 } } } } else { if d < 58 { if k < 27 { 87 } else { -1 } } else { if d < 59 { if k < 27 { 88 } else { -1 } } else { if k < 27 { 89 } else { -1 } } } } } }
pub closed spec fn strans_5(d: int, k: int) -> int { if d < 66 { if d < 63 { if d < 61 { if k < 27 { if k < 26 { 90 } else { -1 } } else { if k < 28 { 61 } else { -1 } } } else { if d < 62 { if k < 24 { if k < 23 { 91 } else { 92 } } else { if k < 26 { 91 } else { if k < 27 { 93 } else { -1 } } } } else { if k < 27 { if k < 26 { 90 } else { -1 } } else { if k < 28 { 94 } else { -1 } } } } } else { if d < 64 { if k < 27 { if k < 26 { 90 } else { -1 } } else { if k < 28 { 95 } else { -1 } } } else { if d < 65 { if k < 23 { if k < 6 { 91 } else { if k < 7 { 96 } else { 91 } } } else { if k < 26 { if k < 24 { 92 } else { 91 } } else { if k < 27 { 93 } else { -1 } } } } else { if k < 12 { -1 } else { if k < 13 { 97 } else { -1 } } } } } } else { if d < 69 { if d < 67 { if k < 13 { -1 } else { if k < 14 { 98 } else { -1 } } } else { if d < 68 { if k < 4 { -1 } else { if k < 5 { 99 } else { -1 } } } else { if k < 13 { -1 } else { if k < 14 { 100 } else { -1 } } } } } else { if d < 70 { if k < 1 { 101 } else { -1 } } else { if d < 71 { if k < 11 { -1 } else { if k < 12 { 102 } else { -1 } } } else { if k < 20 { -1 } else { if k < 21 { 103 } else { -1 } } } } } } }
pub closed spec fn strans_6(d: int, k: int) -> int { if d < 78 { if d < 75 { if d < 73 { if k < 8 { -1 } else { if k < 9 { 104 } else { -1 } } } else { if d < 74 { if k < 1 { 105 } else { -1 } } else { if k < 22 { -1 } else { if k < 23 { 98 } else { -1 } } } } } else { if d < 76 { if k < 18 { if k < 1 { 106 } else { -1 } } else { if k < 19 { 107 } else { -1 } } } else { if d < 77 { if k < 14 { if k < 2 { if k < 1 { 91 } else { 108 } } else { if k < 13 { 91 } else { 109 } } } else { if k < 24 { if k < 23 { 91 } else { 92 } } else { if k < 26 { 91 } else { if k < 27 { 93 } else { -1 } } } } } else { if k < 27 { if k < 26 { 90 } else { -1 } } else { if k < 28 { 110 } else { -1 } } } } } } else { if d < 81 { if d < 79 { if k < 27 { 111 } else { if k < 28 { 46 } else { -1 } } } else { if d < 80 { if k < 13 { if k < 7 { if k < 6 { 91 } else { 112 } } else { if k < 8 { 113 } else { if k < 12 { 91 } else { 114 } } } } else { if k < 24 { if k < 23 { 91 } else { 115 } } else { if k < 26 { 91 } else { if k < 27 { 93 } else { -1 } } } } } else { if k < 27 { 116 } else { -1 } } } } else { if d < 82 { if k < 27 { if k < 26 { 117 } else { -1 } } else { if k < 28 { 6 } else { -1 } } } else { if d < 83 { if k < 26 { 118 } else { -1 } } else { if k < 27 { -1 } else { if k < 28 { 119 } else { -1 } } } } } } }
pub closed spec fn strans_7(d: int, k: int) -> int { if d < 90 { if d < 87 { if d < 85 { if k < 27 { 120 } else { -1 } } else { if d < 86 { if k < 27 { 121 } else { -1 } } else { if k < 27 { 122 } else { -1 } } } } else { if d < 88 { if k < 27 { 123 } else { -1 } } else { if d < 89 { if k < 27 { 124 } else { -1 } } else { if k < 27 { 125 } else { -1 } } } } } else { if d < 93 { if d < 91 { if k < 27 { if k < 26 { 126 } else { -1 } } else { if k < 28 { 127 } else { -1 } } } else { if d < 92 { if k < 27 { if k < 26 { 128 } else { 129 } } else { if k < 28 { 130 } else { -1 } } } else { if k < 27 { if k < 26 { 128 } else { 129 } } else { if k < 28 { 46 } else { -1 } } } } } else { if d < 94 { if k < 27 { if k < 26 { 131 } else { 132 } } else { if k < 28 { 130 } else { -1 } } } else { if d < 95 { if k < 23 { if k < 11 { 91 } else { if k < 12 { 133 } else { 91 } } } else { if k < 26 { if k < 24 { 92 } else { 91 } } else { if k < 27 { 93 } else { -1 } } } } else { if k < 23 { if k < 6 { 91 } else { if k < 7 { 134 } else { 91 } } } else { if k < 26 { if k < 24 { 92 } else { 91 } } else { if k < 27 { 93 } else { -1 } } } } } } } }
pub closed spec fn strans_8(d: int, k: int) -> int { if d < 102 { if d < 99 { if d < 97 { if k < 26 { if k < 1 { 128 } else { if k < 2 { 135 } else { 128 } } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if d < 98 { if k < 8 { -1 } else { if k < 9 { 52 } else { -1 } } } else { if k < 13 { -1 } else { if k < 14 { 52 } else { -1 } } } } } else { if d < 100 { if k < 5 { -1 } else { if k < 6 { 136 } else { -1 } } } else { if d < 101 { if k < 14 { -1 } else { if k < 15 { 137 } else { -1 } } } else { if k < 10 { -1 } else { if k < 11 { 52 } else { -1 } } } } } } else { if d < 105 { if d < 103 { if k < 8 { -1 } else { if k < 9 { 138 } else { -1 } } } else { if d < 104 { if k < 23 { -1 } else { if k < 24 { 52 } else { -1 } } } else { if k < 13 { -1 } else { if k < 14 { 139 } else { -1 } } } } } else { if d < 106 { if k < 21 { -1 } else { if k < 22 { 140 } else { -1 } } } else { if d < 107 { if k < 15 { if k < 14 { -1 } else { 52 } } else { if k < 24 { -1 } else { if k < 25 { 52 } else { -1 } } } } else { if k < 20 { -1 } else { if k < 21 { 52 } else { -1 } } } } } } }
pub closed spec fn strans_9(d: int, k: int) -> int { if d < 114 { if d < 111 { if d < 109 { if k < 26 { if k < 14 { 128 } else { if k < 15 { 141 } else { 128 } } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if d < 110 { if k < 26 { if k < 24 { 128 } else { if k < 25 { 142 } else { 128 } } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if k < 23 { if k < 2 { if k < 1 { 91 } else { 143 } } else { if k < 3 { 144 } else { 91 } } } else { if k < 26 { if k < 24 { 92 } else { 91 } } else { if k < 27 { 93 } else { -1 } } } } } } else { if d < 112 { if k < 27 { 145 } else { if k < 28 { 46 } else { -1 } } } else { if d < 113 { if k < 26 { if k < 20 { 128 } else { if k < 21 { 146 } else { 128 } } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if k < 26 { if k < 1 { 147 } else { 128 } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } } } } else { if d < 117 { if d < 115 { if k < 26 { if k < 8 { 128 } else { if k < 9 { 148 } else { 128 } } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if d < 116 { if k < 26 { if k < 8 { 128 } else { if k < 9 { 149 } else { 128 } } } else { if k < 27 { 129 } else { if k < 28 { 46 } else { -1 } } } } else { if k < 27 { 150 } else { -1 } } } } else { if d < 118 { if k < 26 { 151 } else { -1 } } else { if d < 119 { if k < 26 { 151 } else { -1 } } else { if k < 26 { 152 } else { -1 } } } } } }
pub closed spec fn strans_10(d: int, k: int) -> int { if d < 126 { if d < 123 { if d < 121 { if k < 27 { 150 } else { -1 } } else { if d < 122 { if k < 27 { 150 } else { -1 } } else { if k < 27 { 153 } else { -1 } } } } else { if d < 124 { if k < 27 { 153 } else { if k < 28 { 154 } else { -1 } } } else { if d < 125 { if k < 27 { 155 } else { if k < 28 { 58 } else { -1 } } } else { if k < 27 { 156 } else { if k < 28 { 157 } else { -1 } } } } } } else { if d < 129 { if d < 127 { if k < 27 { if k < 26 { 158 } else { -1 } } else { if k < 28 { 127 } else { -1 } } } else { if d < 128 { if k < 24 { if k < 23 { 159 } else { 160 } } else { if k < 26 { 159 } else { if k < 27 { 93 } else { -1 } } } } else { if k < 27 { if k < 26 { 161 } else { 162 } } else { if k < 28 { 163 } else { -1 } } } } } else { if d < 130 { if k < 27 { 162 } else { -1 } } else { if d < 131 { if k < 27 { 164 } else { -1 } } else { if k < 27 { 165 } else { -1 } } } } } }
pub closed spec fn strans_11(d: int, k: int) -> int { if d < 138 { if d < 135 { if d < 133 { if k < 26 { 165 } else { if k < 27 { 166 } else { -1 } } } else { if d < 134 { if k < 26 { if k < 14 { 128 } else { if k < 15 { 167 } else { 128 } } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if k < 26 { if k < 1 { 168 } else { 128 } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } } } else { if d < 136 { if k < 27 { if k < 26 { 161 } else { 162 } } else { if k < 28 { 169 } else { -1 } } } else { if d < 137 { if k < 1 { 170 } else { -1 } } else { if k < 2 { -1 } else { if k < 3 { 171 } else { -1 } } } } } } else { if d < 141 { if d < 139 { if k < 13 { -1 } else { if k < 14 { 172 } else { -1 } } } else { if d < 140 { if k < 6 { -1 } else { if k < 7 { 173 } else { -1 } } } else { if k < 1 { 174 } else { -1 } } } } else { if d < 142 { if k < 26 { if k < 10 { 161 } else { if k < 11 { 175 } else { 161 } } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } else { if d < 143 { if k < 26 { if k < 13 { 161 } else { if k < 14 { 175 } else { 161 } } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } else { if k < 26 { if k < 4 { 128 } else { if k < 5 { 176 } else { 128 } } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } } } } }
pub closed spec fn strans_12(d: int, k: int) -> int { if d < 150 { if d < 147 { if d < 145 { if k < 26 { if k < 7 { 128 } else { if k < 8 { 177 } else { 128 } } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if d < 146 { if k < 27 { 178 } else { if k < 28 { 46 } else { -1 } } } else { if k < 26 { if k < 14 { 161 } else { if k < 15 { 179 } else { 161 } } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } } } else { if d < 148 { if k < 26 { if k < 10 { 161 } else { if k < 11 { 180 } else { 161 } } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } else { if d < 149 { if k < 26 { if k < 13 { 161 } else { if k < 14 { 181 } else { 161 } } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } else { if k < 26 { if k < 1 { 182 } else { 161 } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } } } } else { if d < 153 { if d < 151 { if k < 27 { 183 } else { -1 } } else { if d < 152 { if k < 26 { 184 } else { -1 } } else { if k < 26 { 185 } else { -1 } } } } else { if d < 154 { if k < 27 { 186 } else { if k < 28 { 154 } else { -1 } } } else { if d < 155 { if k < 26 { 34 } else { if k < 27 { 35 } else { -1 } } } else { if k < 27 { 187 } else { if k < 28 { 58 } else { -1 } } } } } } }
pub closed spec fn strans_13(d: int, k: int) -> int { if d < 162 { if d < 159 { if d < 157 { if k < 27 { 188 } else { if k < 28 { 157 } else { -1 } } } else { if d < 158 { if k < 24 { if k < 23 { 189 } else { 89 } } else { if k < 27 { 189 } else { -1 } } } else { if k < 27 { if k < 26 { 190 } else { -1 } } else { if k < 28 { 127 } else { -1 } } } } } else { if d < 160 { if k < 27 { if k < 26 { 191 } else { 129 } } else { if k < 28 { 130 } else { -1 } } } else { if d < 161 { if k < 27 { if k < 26 { 191 } else { 129 } } else { if k < 28 { 46 } else { -1 } } } else { if k < 27 { if k < 26 { 192 } else { 193 } } else { if k < 28 { 194 } else { -1 } } } } } } else { if d < 165 { if d < 163 { if k < 27 { 193 } else { -1 } } else { if d < 164 { if k < 24 { if k < 23 { 195 } else { 196 } } else { if k < 26 { 195 } else { if k < 27 { 197 } else { -1 } } } } else { if k < 27 { 198 } else { -1 } } } } else { if d < 166 { if k < 27 { 199 } else { -1 } } else { if d < 167 { if k < 27 { 199 } else { if k < 28 { 163 } else { -1 } } } else { if k < 26 { if k < 9 { 161 } else { if k < 10 { 200 } else { 161 } } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } } } } }
pub closed spec fn strans_14(d: int, k: int) -> int { if d < 174 { if d < 171 { if d < 169 { if k < 26 { if k < 20 { 161 } else { if k < 21 { 201 } else { 161 } } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } else { if d < 170 { if k < 23 { if k < 14 { 195 } else { if k < 15 { 202 } else { 195 } } } else { if k < 26 { if k < 24 { 196 } else { 195 } } else { if k < 27 { 197 } else { -1 } } } } else { if k < 20 { -1 } else { if k < 21 { 203 } else { -1 } } } } } else { if d < 172 { if k < 7 { -1 } else { if k < 8 { 204 } else { -1 } } } else { if d < 173 { if k < 6 { -1 } else { if k < 7 { 205 } else { -1 } } } else { if k < 14 { -1 } else { if k < 15 { 52 } else { -1 } } } } } } else { if d < 177 { if d < 175 { if k < 9 { -1 } else { if k < 10 { 173 } else { -1 } } } else { if d < 176 { if k < 27 { if k < 26 { 192 } else { 193 } } else { if k < 28 { 194 } else { -1 } } } else { if k < 27 { if k < 26 { 161 } else { 162 } } else { if k < 28 { 206 } else { -1 } } } } } else { if d < 178 { if k < 27 { if k < 26 { 161 } else { 162 } } else { if k < 28 { 207 } else { -1 } } } else { if d < 179 { if k < 27 { 208 } else { if k < 28 { 46 } else { -1 } } } else { if k < 26 { if k < 24 { 192 } else { if k < 25 { 209 } else { 192 } } } else { if k < 27 { 193 } else { if k < 28 { 194 } else { -1 } } } } } } } }
pub closed spec fn strans_15(d: int, k: int) -> int { if d < 186 { if d < 183 { if d < 181 { if k < 26 { if k < 10 { 192 } else { if k < 11 { 210 } else { 192 } } } else { if k < 27 { 193 } else { if k < 28 { 194 } else { -1 } } } } else { if d < 182 { if k < 27 { if k < 26 { 192 } else { 193 } } else { if k < 28 { 211 } else { -1 } } } else { if k < 26 { if k < 13 { 192 } else { if k < 14 { 212 } else { 192 } } } else { if k < 27 { 193 } else { if k < 28 { 194 } else { -1 } } } } } } else { if d < 184 { if k < 27 { 213 } else { -1 } } else { if d < 185 { if k < 26 { 214 } else { -1 } } else { if k < 26 { 215 } else { -1 } } } } } else { if d < 189 { if d < 187 { if k < 27 { 216 } else { if k < 28 { 154 } else { -1 } } } else { if d < 188 { if k < 27 { 217 } else { if k < 28 { 58 } else { -1 } } } else { if k < 27 { 218 } else { if k < 28 { 157 } else { -1 } } } } } else { if d < 190 { if k < 27 { 125 } else { if k < 28 { 59 } else { -1 } } } else { if d < 191 { if k < 27 { if k < 26 { 219 } else { -1 } } else { if k < 28 { 127 } else { -1 } } } else { if k < 27 { if k < 26 { 220 } else { 162 } } else { if k < 28 { 163 } else { -1 } } } } } } }
pub closed spec fn strans_16(d: int, k: int) -> int { if d < 198 { if d < 195 { if d < 193 { if k < 27 { 221 } else { if k < 28 { 222 } else { -1 } } } else { if d < 194 { if k < 27 { 221 } else { -1 } } else { if k < 24 { if k < 23 { 223 } else { 224 } } else { if k < 26 { 223 } else { if k < 27 { 93 } else { -1 } } } } } } else { if d < 196 { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } else { if d < 197 { if k < 27 { 129 } else { if k < 28 { 46 } else { -1 } } } else { if k < 27 { 131 } else { if k < 28 { 130 } else { -1 } } } } } } else { if d < 201 { if d < 199 { if k < 27 { 225 } else { if k < 28 { 226 } else { -1 } } } else { if d < 200 { if k < 27 { 221 } else { if k < 28 { 163 } else { -1 } } } else { if k < 26 { if k < 1 { 192 } else { if k < 2 { 227 } else { 192 } } } else { if k < 27 { 193 } else { if k < 28 { 194 } else { -1 } } } } } } else { if d < 202 { if k < 26 { if k < 11 { 192 } else { if k < 12 { 228 } else { 192 } } } else { if k < 27 { 193 } else { if k < 28 { 194 } else { -1 } } } } else { if d < 203 { if k < 5 { if k < 4 { 129 } else { 229 } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if k < 11 { -1 } else { if k < 12 { 230 } else { -1 } } } } } } }
pub closed spec fn strans_17(d: int, k: int) -> int { if d < 210 { if d < 207 { if d < 205 { if k < 8 { -1 } else { if k < 9 { 231 } else { -1 } } } else { if d < 206 { if k < 14 { -1 } else { if k < 15 { 98 } else { -1 } } } else { if k < 14 { if k < 6 { if k < 5 { 195 } else { 232 } } else { if k < 13 { 195 } else { 233 } } } else { if k < 24 { if k < 23 { 195 } else { 196 } } else { if k < 26 { 195 } else { if k < 27 { 197 } else { -1 } } } } } } } else { if d < 208 { if k < 23 { if k < 3 { 195 } else { if k < 4 { 234 } else { 195 } } } else { if k < 26 { if k < 24 { 196 } else { 195 } } else { if k < 27 { 197 } else { -1 } } } } else { if d < 209 { if k < 27 { 235 } else { if k < 28 { 46 } else { -1 } } } else { if k < 21 { if k < 20 { 221 } else { 236 } } else { if k < 27 { 221 } else { if k < 28 { 222 } else { -1 } } } } } } } else { if d < 213 { if d < 211 { if k < 27 { if k < 1 { 236 } else { 221 } } else { if k < 28 { 222 } else { -1 } } } else { if d < 212 { if k < 23 { if k < 13 { 223 } else { if k < 14 { 237 } else { 223 } } } else { if k < 26 { if k < 24 { 224 } else { 223 } } else { if k < 27 { 93 } else { -1 } } } } else { if k < 7 { if k < 6 { 221 } else { 236 } } else { if k < 27 { 221 } else { if k < 28 { 222 } else { -1 } } } } } } else { if d < 214 { if k < 27 { 52 } else { -1 } } else { if d < 215 { if k < 26 { 52 } else { -1 } } else { if k < 27 { -1 } else { if k < 28 { 7 } else { -1 } } } } } } }
pub closed spec fn strans_18(d: int, k: int) -> int { if d < 222 { if d < 219 { if d < 217 { if k < 27 { 238 } else { if k < 28 { 154 } else { -1 } } } else { if d < 218 { if k < 27 { 239 } else { if k < 28 { 58 } else { -1 } } } else { if k < 27 { 240 } else { if k < 28 { 157 } else { -1 } } } } } else { if d < 220 { if k < 27 { -1 } else { if k < 28 { 127 } else { -1 } } } else { if d < 221 { if k < 26 { 192 } else { if k < 27 { 193 } else { -1 } } } else { if k < 27 { 241 } else { if k < 28 { 163 } else { -1 } } } } } } else { if d < 225 { if d < 223 { if k < 24 { if k < 23 { 242 } else { 243 } } else { if k < 26 { 242 } else { if k < 27 { 93 } else { -1 } } } } else { if d < 224 { if k < 27 { if k < 26 { 244 } else { 129 } } else { if k < 28 { 130 } else { -1 } } } else { if k < 27 { if k < 26 { 244 } else { 129 } } else { if k < 28 { 46 } else { -1 } } } } } else { if d < 226 { if k < 27 { 245 } else { if k < 28 { 226 } else { -1 } } } else { if d < 227 { if k < 24 { if k < 23 { 246 } else { 247 } } else { if k < 27 { 246 } else { -1 } } } else { if k < 27 { if k < 1 { 248 } else { 221 } } else { if k < 28 { 222 } else { -1 } } } } } } }
pub closed spec fn strans_19(d: int, k: int) -> int { if d < 234 { if d < 231 { if d < 229 { if k < 9 { if k < 8 { 221 } else { 249 } } else { if k < 27 { 221 } else { if k < 28 { 222 } else { -1 } } } } else { if d < 230 { if k < 4 { if k < 3 { 162 } else { 250 } } else { if k < 27 { 162 } else { -1 } } } else { if k < 19 { -1 } else { if k < 20 { 52 } else { -1 } } } } } else { if d < 232 { if k < 1 { 98 } else { -1 } } else { if d < 233 { if k < 18 { if k < 17 { 129 } else { 251 } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if k < 12 { if k < 11 { 129 } else { 251 } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } } } } else { if d < 237 { if d < 235 { if k < 5 { if k < 4 { 129 } else { 251 } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if d < 236 { if k < 27 { 252 } else { if k < 28 { 46 } else { -1 } } } else { if k < 27 { 241 } else { if k < 28 { 163 } else { -1 } } } } } else { if d < 238 { if k < 26 { if k < 1 { 253 } else { 244 } } else { if k < 27 { 129 } else { if k < 28 { 130 } else { -1 } } } } else { if d < 239 { if k < 27 { -1 } else { if k < 28 { 154 } else { -1 } } } else { if k < 27 { 254 } else { if k < 28 { 58 } else { -1 } } } } } } }
pub closed spec fn strans_20(d: int, k: int) -> int { if d < 246 { if d < 243 { if d < 241 { if k < 27 { 255 } else { if k < 28 { 157 } else { -1 } } } else { if d < 242 { if k < 27 { 256 } else { if k < 28 { 163 } else { -1 } } } else { if k < 27 { if k < 26 { 257 } else { 129 } } else { if k < 28 { 130 } else { -1 } } } } } else { if d < 244 { if k < 27 { if k < 26 { 257 } else { 129 } } else { if k < 28 { 46 } else { -1 } } } else { if d < 245 { if k < 27 { if k < 26 { 258 } else { 162 } } else { if k < 28 { 163 } else { -1 } } } else { if k < 27 { 259 } else { if k < 28 { 226 } else { -1 } } } } } } else { if d < 249 { if d < 247 { if k < 27 { 198 } else { if k < 28 { 130 } else { -1 } } } else { if d < 248 { if k < 27 { 198 } else { if k < 28 { 46 } else { -1 } } } else { if k < 14 { if k < 13 { 241 } else { 260 } } else { if k < 27 { 241 } else { if k < 28 { 163 } else { -1 } } } } } } else { if d < 250 { if k < 19 { if k < 18 { 241 } else { 261 } } else { if k < 27 { 241 } else { if k < 28 { 163 } else { -1 } } } } else { if d < 251 { if k < 27 { 193 } else { -1 } } else { if k < 27 { 162 } else { -1 } } } } } }
pub closed spec fn strans_21(d: int, k: int) -> int { if d < 258 { if d < 255 { if d < 253 { if k < 27 { 262 } else { if k < 28 { 46 } else { -1 } } } else { if d < 254 { if k < 26 { if k < 13 { 258 } else { if k < 14 { 263 } else { 258 } } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } else { if k < 27 { 264 } else { if k < 28 { 58 } else { -1 } } } } } else { if d < 256 { if k < 27 { 265 } else { if k < 28 { 157 } else { -1 } } } else { if d < 257 { if k < 27 { 266 } else { if k < 28 { 163 } else { -1 } } } else { if k < 27 { 162 } else { if k < 28 { 163 } else { -1 } } } } } } else { if d < 261 { if d < 259 { if k < 27 { if k < 26 { 192 } else { 193 } } else { if k < 28 { 267 } else { -1 } } } else { if d < 260 { if k < 27 { 268 } else { if k < 28 { 226 } else { -1 } } } else { if k < 27 { 256 } else { if k < 28 { 163 } else { -1 } } } } } else { if d < 262 { if k < 8 { if k < 7 { 256 } else { 269 } } else { if k < 27 { 256 } else { if k < 28 { 163 } else { -1 } } } } else { if d < 263 { if k < 27 { -1 } else { if k < 28 { 46 } else { -1 } } } else { if k < 27 { if k < 26 { 192 } else { 193 } } else { if k < 28 { 267 } else { -1 } } } } } } }
pub closed spec fn strans_22(d: int, k: int) -> int { if d < 270 { if d < 267 { if d < 265 { if k < 27 { -1 } else { if k < 28 { 58 } else { -1 } } } else { if d < 266 { if k < 27 { -1 } else { if k < 28 { 157 } else { -1 } } } else { if k < 27 { -1 } else { if k < 28 { 163 } else { -1 } } } } } else { if d < 268 { if k < 24 { if k < 23 { 270 } else { 271 } } else { if k < 26 { 270 } else { if k < 27 { 93 } else { -1 } } } } else { if d < 269 { if k < 27 { 272 } else { if k < 28 { 226 } else { -1 } } } else { if k < 27 { 266 } else { if k < 28 { 163 } else { -1 } } } } } } else { if d < 273 { if d < 271 { if k < 27 { if k < 26 { 273 } else { 129 } } else { if k < 28 { 130 } else { -1 } } } else { if d < 272 { if k < 27 { if k < 26 { 273 } else { 129 } } else { if k < 28 { 46 } else { -1 } } } else { if k < 27 { 274 } else { if k < 28 { 226 } else { -1 } } } } } else { if d < 274 { if k < 27 { if k < 26 { 275 } else { 162 } } else { if k < 28 { 163 } else { -1 } } } else { if d < 275 { if k < 27 { -1 } else { if k < 28 { 226 } else { -1 } } } else { if k < 27 { if k < 26 { 192 } else { 193 } } else { if k < 28 { 127 } else { -1 } } } } } } }
#[verifier::memoize] pub closed spec fn strans(d: int, k: int) -> int { if d < 132 { if d < 60 { if d < 24 { if d < 12 { strans_0(d, k) } else { strans_1(d, k) } } else { if d < 36 { strans_2(d, k) } else { if d < 48 { strans_3(d, k) } else { strans_4(d, k) } } } } else { if d < 96 { if d < 72 { strans_5(d, k) } else { if d < 84 { strans_6(d, k) } else { strans_7(d, k) } } } else { if d < 108 { strans_8(d, k) } else { if d < 120 { strans_9(d, k) } else { strans_10(d, k) } } } } } else { if d < 204 { if d < 168 { if d < 144 { strans_11(d, k) } else { if d < 156 { strans_12(d, k) } else { strans_13(d, k) } } } else { if d < 180 { strans_14(d, k) } else { if d < 192 { strans_15(d, k) } else { strans_16(d, k) } } } } else { if d < 240 { if d < 216 { strans_17(d, k) } else { if d < 228 { strans_18(d, k) } else { strans_19(d, k) } } } else { if d < 252 { strans_20(d, k) } else { if d < 264 { strans_21(d, k) } else { strans_22(d, k) } } } } } }
pub closed spec fn smin_0(d: int) -> int { if d < 24 { if d < 12 { if d < 6 { if d < 3 { if d < 1 { 0 } else { if d < 2 { 136 } else { 138 } } } else { if d < 4 { 146 } else { if d < 5 { 147 } else { 166 } } } } else { if d < 9 { if d < 7 { 151 } else { if d < 8 { 163 } else { 170 } } } else { if d < 10 { 171 } else { if d < 11 { 174 } else { 182 } } } } } else { if d < 18 { if d < 15 { if d < 13 { 196 } else { if d < 14 { 207 } else { 209 } } } else { if d < 16 { 1 } else { if d < 17 { 1 } else { 1 } } } } else { if d < 21 { if d < 19 { 2 } else { if d < 20 { 3 } else { 1 } } } else { if d < 22 { 4 } else { if d < 23 { 5 } else { 1 } } } } } } else { if d < 36 { if d < 30 { if d < 27 { if d < 25 { 137 } else { if d < 26 { 139 } else { 148 } } } else { if d < 28 { 167 } else { if d < 29 { 153 } else { 164 } } } } else { if d < 33 { if d < 31 { 165 } else { if d < 32 { 172 } else { 175 } } } else { if d < 34 { 176 } else { if d < 35 { 183 } else { 184 } } } } } else { if d < 42 { if d < 39 { if d < 37 { 197 } else { if d < 38 { 208 } else { 210 } } } else { if d < 40 { 6 } else { if d < 41 { 6 } else { 6 } } } } else { if d < 45 { if d < 43 { 7 } else { if d < 44 { 8 } else { 6 } } } else { if d < 46 { 9 } else { if d < 47 { 10 } else { 6 } } } } } } }
pub closed spec fn smin_1(d: int) -> int { if d < 72 { if d < 60 { if d < 54 { if d < 51 { if d < 49 { 140 } else { if d < 50 { 149 } else { 168 } } } else { if d < 52 { 155 } else { if d < 53 { 53 } else { 173 } } } } else { if d < 57 { if d < 55 { 177 } else { if d < 56 { 178 } else { 185 } } } else { if d < 58 { 186 } else { if d < 59 { 198 } else { 211 } } } } } else { if d < 66 { if d < 63 { if d < 61 { 11 } else { if d < 62 { 12 } else { 11 } } } else { if d < 64 { 11 } else { if d < 65 { 13 } else { 14 } } } } else { if d < 69 { if d < 67 { 15 } else { if d < 68 { 16 } else { 17 } } } else { if d < 70 { 18 } else { if d < 71 { 19 } else { 20 } } } } } } else { if d < 84 { if d < 78 { if d < 75 { if d < 73 { 21 } else { if d < 74 { 22 } else { 23 } } } else { if d < 76 { 24 } else { if d < 77 { 12 } else { 25 } } } } else { if d < 81 { if d < 79 { 26 } else { if d < 80 { 12 } else { 141 } } } else { if d < 82 { 150 } else { if d < 83 { 169 } else { 157 } } } } } else { if d < 90 { if d < 87 { if d < 85 { 179 } else { if d < 86 { 180 } else { 187 } } } else { if d < 88 { 188 } else { if d < 89 { 199 } else { 212 } } } } else { if d < 93 { if d < 91 { 27 } else { if d < 92 { 28 } else { 29 } } } else { if d < 94 { 30 } else { if d < 95 { 12 } else { 12 } } } } } } }
pub closed spec fn smin_2(d: int) -> int { if d < 120 { if d < 108 { if d < 102 { if d < 99 { if d < 97 { 31 } else { if d < 98 { 32 } else { 33 } } } else { if d < 100 { 34 } else { if d < 101 { 35 } else { 36 } } } } else { if d < 105 { if d < 103 { 37 } else { if d < 104 { 38 } else { 39 } } } else { if d < 106 { 40 } else { if d < 107 { 41 } else { 42 } } } } } else { if d < 114 { if d < 111 { if d < 109 { 28 } else { if d < 110 { 28 } else { 43 } } } else { if d < 112 { 44 } else { if d < 113 { 28 } else { 28 } } } } else { if d < 117 { if d < 115 { 28 } else { if d < 116 { 29 } else { 142 } } } else { if d < 118 { 152 } else { if d < 119 { 152 } else { 159 } } } } } } else { if d < 132 { if d < 126 { if d < 123 { if d < 121 { 181 } else { if d < 122 { 142 } else { 189 } } } else { if d < 124 { 190 } else { if d < 125 { 200 } else { 213 } } } } else { if d < 129 { if d < 127 { 45 } else { if d < 128 { 46 } else { 47 } } } else { if d < 130 { 48 } else { if d < 131 { 49 } else { 50 } } } } } else { if d < 138 { if d < 135 { if d < 133 { 51 } else { if d < 134 { 28 } else { 28 } } } else { if d < 136 { 52 } else { if d < 137 { 54 } else { 55 } } } } else { if d < 141 { if d < 139 { 56 } else { if d < 140 { 57 } else { 58 } } } else { if d < 142 { 47 } else { if d < 143 { 47 } else { 59 } } } } } } }
pub closed spec fn smin_3(d: int) -> int { if d < 168 { if d < 156 { if d < 150 { if d < 147 { if d < 145 { 60 } else { if d < 146 { 61 } else { 47 } } } else { if d < 148 { 47 } else { if d < 149 { 47 } else { 47 } } } } else { if d < 153 { if d < 151 { 143 } else { if d < 152 { 154 } else { 160 } } } else { if d < 154 { 191 } else { if d < 155 { 192 } else { 201 } } } } } else { if d < 162 { if d < 159 { if d < 157 { 214 } else { if d < 158 { 215 } else { 62 } } } else { if d < 160 { 63 } else { if d < 161 { 64 } else { 65 } } } } else { if d < 165 { if d < 163 { 66 } else { if d < 164 { 67 } else { 68 } } } else { if d < 166 { 69 } else { if d < 167 { 70 } else { 47 } } } } } } else { if d < 180 { if d < 174 { if d < 171 { if d < 169 { 47 } else { if d < 170 { 71 } else { 72 } } } else { if d < 172 { 73 } else { if d < 173 { 74 } else { 75 } } } } else { if d < 177 { if d < 175 { 76 } else { if d < 176 { 65 } else { 77 } } } else { if d < 178 { 78 } else { if d < 179 { 79 } else { 65 } } } } } else { if d < 186 { if d < 183 { if d < 181 { 65 } else { if d < 182 { 65 } else { 65 } } } else { if d < 184 { 144 } else { if d < 185 { 156 } else { 161 } } } } else { if d < 189 { if d < 187 { 193 } else { if d < 188 { 202 } else { 216 } } } else { if d < 190 { 217 } else { if d < 191 { 80 } else { 81 } } } } } } }
pub closed spec fn smin_4(d: int) -> int { if d < 216 { if d < 204 { if d < 198 { if d < 195 { if d < 193 { 82 } else { if d < 194 { 83 } else { 84 } } } else { if d < 196 { 85 } else { if d < 197 { 86 } else { 87 } } } } else { if d < 201 { if d < 199 { 88 } else { if d < 200 { 89 } else { 65 } } } else { if d < 202 { 65 } else { if d < 203 { 90 } else { 91 } } } } } else { if d < 210 { if d < 207 { if d < 205 { 92 } else { if d < 206 { 93 } else { 94 } } } else { if d < 208 { 95 } else { if d < 209 { 96 } else { 82 } } } } else { if d < 213 { if d < 211 { 82 } else { if d < 212 { 84 } else { 82 } } } else { if d < 214 { 145 } else { if d < 215 { 158 } else { 162 } } } } } } else { if d < 228 { if d < 222 { if d < 219 { if d < 217 { 194 } else { if d < 218 { 203 } else { 218 } } } else { if d < 220 { 97 } else { if d < 221 { 98 } else { 99 } } } } else { if d < 225 { if d < 223 { 100 } else { if d < 224 { 101 } else { 102 } } } else { if d < 226 { 103 } else { if d < 227 { 104 } else { 82 } } } } } else { if d < 234 { if d < 231 { if d < 229 { 82 } else { if d < 230 { 105 } else { 106 } } } else { if d < 232 { 107 } else { if d < 233 { 108 } else { 109 } } } } else { if d < 237 { if d < 235 { 110 } else { if d < 236 { 111 } else { 99 } } } else { if d < 238 { 101 } else { if d < 239 { 195 } else { 204 } } } } } } }
pub closed spec fn smin_5(d: int) -> int { if d < 258 { if d < 249 { if d < 244 { if d < 242 { if d < 241 { 219 } else { 112 } } else { if d < 243 { 113 } else { 114 } } } else { if d < 246 { if d < 245 { 115 } else { 116 } } else { if d < 247 { 117 } else { if d < 248 { 118 } else { 99 } } } } } else { if d < 253 { if d < 251 { if d < 250 { 99 } else { 119 } } else { if d < 252 { 120 } else { 121 } } } else { if d < 255 { if d < 254 { 115 } else { 205 } } else { if d < 256 { 220 } else { if d < 257 { 122 } else { 123 } } } } } } else { if d < 267 { if d < 262 { if d < 260 { if d < 259 { 124 } else { 125 } } else { if d < 261 { 112 } else { 112 } } } else { if d < 264 { if d < 263 { 126 } else { 124 } } else { if d < 265 { 206 } else { if d < 266 { 221 } else { 127 } } } } } else { if d < 271 { if d < 269 { if d < 268 { 128 } else { 129 } } else { if d < 270 { 122 } else { 130 } } } else { if d < 273 { if d < 272 { 131 } else { 132 } } else { if d < 274 { 133 } else { if d < 275 { 134 } else { 135 } } } } } } }
#[verifier::memoize] pub closed spec fn smin(d: int) -> int { if d < 144 { if d < 48 { smin_0(d) } else { if d < 96 { smin_1(d) } else { smin_2(d) } } } else { if d < 192 { smin_3(d) } else { if d < 240 { smin_4(d) } else { smin_5(d) } } } }
pub open spec fn n_set() -> int { 276 }
/// the minimal deterministic automaton: transition (-1: none) and acceptance
pub open spec fn step_def_0(m: int, k: int) -> int { if m < 6 { if m < 3 { if m < 1 { if k < 18 { if k < 5 { if k < 4 { 1 } else { 2 } } else { if k < 8 { 1 } else { if k < 9 { 3 } else { 1 } } } } else { if k < 23 { if k < 19 { 4 } else { 1 } } else { if k < 24 { 5 } else { if k < 26 { 1 } else { -1 } } } } } else { if m < 2 { if k < 26 { 6 } else { -1 } } else { if k < 14 { if k < 13 { 6 } else { 7 } } else { if k < 26 { 6 } else { -1 } } } } } else { if m < 4 { if k < 27 { if k < 26 { 6 } else { -1 } } else { if k < 28 { 8 } else { -1 } } } else { if m < 5 { if k < 7 { if k < 6 { 6 } else { 9 } } else { if k < 26 { 6 } else { -1 } } } else { if k < 27 { if k < 26 { 6 } else { -1 } } else { if k < 28 { 10 } else { -1 } } } } } } else { if m < 9 { if m < 7 { if k < 27 { if k < 26 { 11 } else { -1 } } else { if k < 28 { 12 } else { -1 } } } else { if m < 8 { if k < 27 { if k < 26 { 11 } else { -1 } } else { if k < 28 { 13 } else { -1 } } } else { if k < 10 { if k < 4 { if k < 2 { if k < 1 { 14 } else { 15 } } else { if k < 3 { -1 } else { 16 } } } else { if k < 7 { if k < 5 { 17 } else { -1 } } else { if k < 8 { 18 } else { -1 } } } } else { if k < 14 { if k < 12 { if k < 11 { 19 } else { 20 } } else { if k < 13 { 21 } else { 22 } } } else { if k < 16 { if k < 15 { -1 } else { 23 } } else { if k < 19 { -1 } else { if k < 20 { 24 } else { -1 } } } } } } } } else { if m < 10 { if k < 26 { if k < 13 { 11 } else { if k < 14 { 25 } else { 11 } } } else { if k < 27 { -1 } else { if k < 28 { 12 } else { -1 } } } } else { if m < 11 { if k < 27 { 26 } else { -1 } } else { if k < 27 { if k < 26 { 27 } else { -1 } } else { if k < 28 { 12 } else { -1 } } } } } } }
pub open spec fn step_def_1(m: int, k: int) -> int { if m < 18 { if m < 15 { if m < 13 { if k < 24 { if k < 23 { 28 } else { 29 } } else { if k < 26 { 28 } else { if k < 27 { 30 } else { -1 } } } } else { if m < 14 { if k < 23 { if k < 6 { 28 } else { if k < 7 { 31 } else { 28 } } } else { if k < 26 { if k < 24 { 29 } else { 28 } } else { if k < 27 { 30 } else { -1 } } } } else { if k < 12 { -1 } else { if k < 13 { 32 } else { -1 } } } } } else { if m < 16 { if k < 13 { -1 } else { if k < 14 { 33 } else { -1 } } } else { if m < 17 { if k < 4 { -1 } else { if k < 5 { 34 } else { -1 } } } else { if k < 13 { -1 } else { if k < 14 { 35 } else { -1 } } } } } } else { if m < 21 { if m < 19 { if k < 1 { 36 } else { -1 } } else { if m < 20 { if k < 11 { -1 } else { if k < 12 { 37 } else { -1 } } } else { if k < 20 { -1 } else { if k < 21 { 38 } else { -1 } } } } } else { if m < 22 { if k < 8 { -1 } else { if k < 9 { 39 } else { -1 } } } else { if m < 23 { if k < 1 { 40 } else { -1 } } else { if k < 22 { -1 } else { if k < 23 { 33 } else { -1 } } } } } } }
pub open spec fn step_def_2(m: int, k: int) -> int { if m < 30 { if m < 27 { if m < 25 { if k < 18 { if k < 1 { 41 } else { -1 } } else { if k < 19 { 42 } else { -1 } } } else { if m < 26 { if k < 27 { if k < 26 { 27 } else { -1 } } else { if k < 28 { 43 } else { -1 } } } else { if k < 27 { 44 } else { if k < 28 { 10 } else { -1 } } } } } else { if m < 28 { if k < 27 { if k < 26 { 45 } else { -1 } } else { if k < 28 { 46 } else { -1 } } } else { if m < 29 { if k < 27 { if k < 26 { 47 } else { 48 } } else { if k < 28 { 49 } else { -1 } } } else { if k < 27 { if k < 26 { 47 } else { 48 } } else { if k < 28 { 10 } else { -1 } } } } } } else { if m < 33 { if m < 31 { if k < 27 { if k < 26 { 50 } else { 51 } } else { if k < 28 { 49 } else { -1 } } } else { if m < 32 { if k < 26 { if k < 1 { 47 } else { if k < 2 { 52 } else { 47 } } } else { if k < 27 { 48 } else { if k < 28 { 49 } else { -1 } } } } else { if k < 8 { -1 } else { if k < 9 { 53 } else { -1 } } } } } else { if m < 34 { if k < 13 { -1 } else { if k < 14 { 53 } else { -1 } } } else { if m < 35 { if k < 5 { -1 } else { if k < 6 { 54 } else { -1 } } } else { if k < 14 { -1 } else { if k < 15 { 55 } else { -1 } } } } } } }
pub open spec fn step_def_3(m: int, k: int) -> int { if m < 42 { if m < 39 { if m < 37 { if k < 10 { -1 } else { if k < 11 { 53 } else { -1 } } } else { if m < 38 { if k < 8 { -1 } else { if k < 9 { 56 } else { -1 } } } else { if k < 23 { -1 } else { if k < 24 { 53 } else { -1 } } } } } else { if m < 40 { if k < 13 { -1 } else { if k < 14 { 57 } else { -1 } } } else { if m < 41 { if k < 21 { -1 } else { if k < 22 { 58 } else { -1 } } } else { if k < 15 { if k < 14 { -1 } else { 53 } } else { if k < 24 { -1 } else { if k < 25 { 53 } else { -1 } } } } } } } else { if m < 45 { if m < 43 { if k < 20 { -1 } else { if k < 21 { 53 } else { -1 } } } else { if m < 44 { if k < 23 { if k < 2 { if k < 1 { 28 } else { 59 } } else { if k < 3 { 60 } else { 28 } } } else { if k < 26 { if k < 24 { 29 } else { 28 } } else { if k < 27 { 30 } else { -1 } } } } else { if k < 27 { 61 } else { if k < 28 { 10 } else { -1 } } } } } else { if m < 46 { if k < 27 { if k < 26 { 62 } else { -1 } } else { if k < 28 { 46 } else { -1 } } } else { if m < 47 { if k < 24 { if k < 23 { 63 } else { 64 } } else { if k < 26 { 63 } else { if k < 27 { 30 } else { -1 } } } } else { if k < 27 { if k < 26 { 65 } else { 66 } } else { if k < 28 { 67 } else { -1 } } } } } } }
pub open spec fn step_def_4(m: int, k: int) -> int { if m < 54 { if m < 51 { if m < 49 { if k < 27 { 66 } else { -1 } } else { if m < 50 { if k < 27 { 68 } else { -1 } } else { if k < 27 { 69 } else { -1 } } } } else { if m < 52 { if k < 26 { 69 } else { if k < 27 { 70 } else { -1 } } } else { if m < 53 { if k < 27 { if k < 26 { 65 } else { 66 } } else { if k < 28 { 71 } else { -1 } } } else { -1 } } } } else { if m < 57 { if m < 55 { if k < 1 { 72 } else { -1 } } else { if m < 56 { if k < 2 { -1 } else { if k < 3 { 73 } else { -1 } } } else { if k < 13 { -1 } else { if k < 14 { 74 } else { -1 } } } } } else { if m < 58 { if k < 6 { -1 } else { if k < 7 { 75 } else { -1 } } } else { if m < 59 { if k < 1 { 76 } else { -1 } } else { if k < 26 { if k < 4 { 47 } else { if k < 5 { 77 } else { 47 } } } else { if k < 27 { 48 } else { if k < 28 { 49 } else { -1 } } } } } } } }
pub open spec fn step_def_5(m: int, k: int) -> int { if m < 66 { if m < 63 { if m < 61 { if k < 26 { if k < 7 { 47 } else { if k < 8 { 78 } else { 47 } } } else { if k < 27 { 48 } else { if k < 28 { 49 } else { -1 } } } } else { if m < 62 { if k < 27 { 79 } else { if k < 28 { 10 } else { -1 } } } else { if k < 27 { if k < 26 { 80 } else { -1 } } else { if k < 28 { 46 } else { -1 } } } } } else { if m < 64 { if k < 27 { if k < 26 { 81 } else { 48 } } else { if k < 28 { 49 } else { -1 } } } else { if m < 65 { if k < 27 { if k < 26 { 81 } else { 48 } } else { if k < 28 { 10 } else { -1 } } } else { if k < 27 { if k < 26 { 82 } else { 83 } } else { if k < 28 { 84 } else { -1 } } } } } } else { if m < 69 { if m < 67 { if k < 27 { 83 } else { -1 } } else { if m < 68 { if k < 24 { if k < 23 { 85 } else { 86 } } else { if k < 26 { 85 } else { if k < 27 { 87 } else { -1 } } } } else { if k < 27 { 88 } else { -1 } } } } else { if m < 70 { if k < 27 { 89 } else { -1 } } else { if m < 71 { if k < 27 { 89 } else { if k < 28 { 67 } else { -1 } } } else { if k < 23 { if k < 14 { 85 } else { if k < 15 { 90 } else { 85 } } } else { if k < 26 { if k < 24 { 86 } else { 85 } } else { if k < 27 { 87 } else { -1 } } } } } } } }
pub open spec fn step_def_6(m: int, k: int) -> int { if m < 78 { if m < 75 { if m < 73 { if k < 20 { -1 } else { if k < 21 { 91 } else { -1 } } } else { if m < 74 { if k < 7 { -1 } else { if k < 8 { 92 } else { -1 } } } else { if k < 6 { -1 } else { if k < 7 { 93 } else { -1 } } } } } else { if m < 76 { if k < 14 { -1 } else { if k < 15 { 53 } else { -1 } } } else { if m < 77 { if k < 9 { -1 } else { if k < 10 { 75 } else { -1 } } } else { if k < 27 { if k < 26 { 65 } else { 66 } } else { if k < 28 { 94 } else { -1 } } } } } } else { if m < 81 { if m < 79 { if k < 27 { if k < 26 { 65 } else { 66 } } else { if k < 28 { 95 } else { -1 } } } else { if m < 80 { if k < 27 { 96 } else { if k < 28 { 10 } else { -1 } } } else { if k < 27 { if k < 26 { 97 } else { -1 } } else { if k < 28 { 46 } else { -1 } } } } } else { if m < 82 { if k < 27 { if k < 26 { 98 } else { 66 } } else { if k < 28 { 67 } else { -1 } } } else { if m < 83 { if k < 27 { 99 } else { if k < 28 { 100 } else { -1 } } } else { if k < 27 { 99 } else { -1 } } } } } }
pub open spec fn step_def_7(m: int, k: int) -> int { if m < 90 { if m < 87 { if m < 85 { if k < 24 { if k < 23 { 101 } else { 102 } } else { if k < 26 { 101 } else { if k < 27 { 30 } else { -1 } } } } else { if m < 86 { if k < 27 { 48 } else { if k < 28 { 49 } else { -1 } } } else { if k < 27 { 48 } else { if k < 28 { 10 } else { -1 } } } } } else { if m < 88 { if k < 27 { 50 } else { if k < 28 { 49 } else { -1 } } } else { if m < 89 { if k < 27 { 103 } else { if k < 28 { 104 } else { -1 } } } else { if k < 27 { 99 } else { if k < 28 { 67 } else { -1 } } } } } } else { if m < 93 { if m < 91 { if k < 5 { if k < 4 { 48 } else { 105 } } else { if k < 27 { 48 } else { if k < 28 { 49 } else { -1 } } } } else { if m < 92 { if k < 11 { -1 } else { if k < 12 { 106 } else { -1 } } } else { if k < 8 { -1 } else { if k < 9 { 107 } else { -1 } } } } } else { if m < 94 { if k < 14 { -1 } else { if k < 15 { 33 } else { -1 } } } else { if m < 95 { if k < 14 { if k < 6 { if k < 5 { 85 } else { 108 } } else { if k < 13 { 85 } else { 109 } } } else { if k < 24 { if k < 23 { 85 } else { 86 } } else { if k < 26 { 85 } else { if k < 27 { 87 } else { -1 } } } } } else { if k < 23 { if k < 3 { 85 } else { if k < 4 { 110 } else { 85 } } } else { if k < 26 { if k < 24 { 86 } else { 85 } } else { if k < 27 { 87 } else { -1 } } } } } } } }
pub open spec fn step_def_8(m: int, k: int) -> int { if m < 102 { if m < 99 { if m < 97 { if k < 27 { 111 } else { if k < 28 { 10 } else { -1 } } } else { if m < 98 { if k < 27 { -1 } else { if k < 28 { 46 } else { -1 } } } else { if k < 26 { 82 } else { if k < 27 { 83 } else { -1 } } } } } else { if m < 100 { if k < 27 { 112 } else { if k < 28 { 67 } else { -1 } } } else { if m < 101 { if k < 24 { if k < 23 { 113 } else { 114 } } else { if k < 26 { 113 } else { if k < 27 { 30 } else { -1 } } } } else { if k < 27 { if k < 26 { 115 } else { 48 } } else { if k < 28 { 49 } else { -1 } } } } } } else { if m < 105 { if m < 103 { if k < 27 { if k < 26 { 115 } else { 48 } } else { if k < 28 { 10 } else { -1 } } } else { if m < 104 { if k < 27 { 116 } else { if k < 28 { 104 } else { -1 } } } else { if k < 24 { if k < 23 { 117 } else { 118 } } else { if k < 27 { 117 } else { -1 } } } } } else { if m < 106 { if k < 4 { if k < 3 { 66 } else { 119 } } else { if k < 27 { 66 } else { -1 } } } else { if m < 107 { if k < 19 { -1 } else { if k < 20 { 53 } else { -1 } } } else { if k < 1 { 33 } else { -1 } } } } } }
pub open spec fn step_def_9(m: int, k: int) -> int { if m < 114 { if m < 111 { if m < 109 { if k < 18 { if k < 17 { 48 } else { 120 } } else { if k < 27 { 48 } else { if k < 28 { 49 } else { -1 } } } } else { if m < 110 { if k < 12 { if k < 11 { 48 } else { 120 } } else { if k < 27 { 48 } else { if k < 28 { 49 } else { -1 } } } } else { if k < 5 { if k < 4 { 48 } else { 120 } } else { if k < 27 { 48 } else { if k < 28 { 49 } else { -1 } } } } } } else { if m < 112 { if k < 27 { 121 } else { if k < 28 { 10 } else { -1 } } } else { if m < 113 { if k < 27 { 122 } else { if k < 28 { 67 } else { -1 } } } else { if k < 27 { if k < 26 { 123 } else { 48 } } else { if k < 28 { 49 } else { -1 } } } } } } else { if m < 117 { if m < 115 { if k < 27 { if k < 26 { 123 } else { 48 } } else { if k < 28 { 10 } else { -1 } } } else { if m < 116 { if k < 27 { if k < 26 { 124 } else { 66 } } else { if k < 28 { 67 } else { -1 } } } else { if k < 27 { 125 } else { if k < 28 { 104 } else { -1 } } } } } else { if m < 118 { if k < 27 { 88 } else { if k < 28 { 49 } else { -1 } } } else { if m < 119 { if k < 27 { 88 } else { if k < 28 { 10 } else { -1 } } } else { if k < 27 { 83 } else { -1 } } } } } }
pub open spec fn step_def_10(m: int, k: int) -> int { if m < 126 { if m < 123 { if m < 121 { if k < 27 { 66 } else { -1 } } else { if m < 122 { if k < 27 { 126 } else { if k < 28 { 10 } else { -1 } } } else { if k < 27 { 127 } else { if k < 28 { 67 } else { -1 } } } } } else { if m < 124 { if k < 27 { 66 } else { if k < 28 { 67 } else { -1 } } } else { if m < 125 { if k < 27 { if k < 26 { 82 } else { 83 } } else { if k < 28 { 128 } else { -1 } } } else { if k < 27 { 129 } else { if k < 28 { 104 } else { -1 } } } } } } else { if m < 129 { if m < 127 { if k < 27 { -1 } else { if k < 28 { 10 } else { -1 } } } else { if m < 128 { if k < 27 { -1 } else { if k < 28 { 67 } else { -1 } } } else { if k < 24 { if k < 23 { 130 } else { 131 } } else { if k < 26 { 130 } else { if k < 27 { 30 } else { -1 } } } } } } else { if m < 130 { if k < 27 { 132 } else { if k < 28 { 104 } else { -1 } } } else { if m < 131 { if k < 27 { if k < 26 { 133 } else { 48 } } else { if k < 28 { 49 } else { -1 } } } else { if k < 27 { if k < 26 { 133 } else { 48 } } else { if k < 28 { 10 } else { -1 } } } } } } }
pub open spec fn step_def_11(m: int, k: int) -> int { if m < 138 { if m < 135 { if m < 133 { if k < 27 { 134 } else { if k < 28 { 104 } else { -1 } } } else { if m < 134 { if k < 27 { if k < 26 { 135 } else { 66 } } else { if k < 28 { 67 } else { -1 } } } else { if k < 27 { -1 } else { if k < 28 { 104 } else { -1 } } } } } else { if m < 136 { if k < 27 { if k < 26 { 82 } else { 83 } } else { if k < 28 { 46 } else { -1 } } } else { if m < 137 { if k < 23 { -1 } else { if k < 24 { 137 } else { -1 } } } else { if k < 27 { -1 } else { if k < 28 { 10 } else { -1 } } } } } } else { if m < 141 { if m < 139 { if k < 27 { 139 } else { -1 } } else { if m < 140 { if k < 27 { 140 } else { -1 } } else { if k < 27 { 141 } else { -1 } } } } else { if m < 142 { if k < 27 { 142 } else { -1 } } else { if m < 143 { if k < 27 { 143 } else { -1 } } else { if k < 27 { 144 } else { -1 } } } } } }
pub open spec fn step_def_12(m: int, k: int) -> int { if m < 150 { if m < 147 { if m < 145 { if k < 27 { 145 } else { -1 } } else { if m < 146 { if k < 27 { 53 } else { -1 } } else { if k < 26 { 1 } else { -1 } } } } else { if m < 148 { if k < 26 { 148 } else { -1 } } else { if m < 149 { if k < 26 { 149 } else { -1 } } else { if k < 27 { if k < 26 { 150 } else { -1 } } else { if k < 28 { 151 } else { -1 } } } } } } else { if m < 153 { if m < 151 { if k < 27 { if k < 26 { 152 } else { -1 } } else { if k < 28 { 151 } else { -1 } } } else { if m < 152 { if k < 26 { 153 } else { -1 } } else { if k < 26 { 154 } else { -1 } } } } else { if m < 154 { if k < 26 { 155 } else { -1 } } else { if m < 155 { if k < 26 { 156 } else { -1 } } else { if k < 26 { 157 } else { -1 } } } } } }
pub open spec fn step_def_13(m: int, k: int) -> int { if m < 162 { if m < 159 { if m < 157 { if k < 26 { 158 } else { -1 } } else { if m < 158 { if k < 27 { -1 } else { if k < 28 { 159 } else { -1 } } } else { if k < 26 { 53 } else { -1 } } } } else { if m < 160 { if k < 26 { 160 } else { -1 } } else { if m < 161 { if k < 26 { 161 } else { -1 } } else { if k < 26 { 162 } else { -1 } } } } } else { if m < 165 { if m < 163 { if k < 27 { -1 } else { if k < 28 { 163 } else { -1 } } } else { if m < 164 { if k < 26 { 164 } else { -1 } } else { if k < 26 { 165 } else { -1 } } } } else { if m < 166 { if k < 26 { 53 } else { -1 } } else { if m < 167 { if k < 26 { 167 } else { -1 } } else { if k < 26 { 168 } else { -1 } } } } } }
pub open spec fn step_def_14(m: int, k: int) -> int { if m < 174 { if m < 171 { if m < 169 { if k < 26 { 169 } else { -1 } } else { if m < 170 { if k < 26 { 152 } else { -1 } } else { if k < 26 { 163 } else { -1 } } } } else { if m < 172 { if k < 26 { 165 } else { if k < 27 { 172 } else { -1 } } } else { if m < 173 { if k < 26 { -1 } else { if k < 27 { 173 } else { -1 } } } else { if k < 26 { -1 } else { if k < 27 { 53 } else { -1 } } } } } } else { if m < 177 { if m < 175 { if k < 26 { 175 } else { if k < 27 { 176 } else { -1 } } } else { if m < 176 { if k < 27 { 177 } else { -1 } } else { if k < 27 { 178 } else { -1 } } } } else { if m < 178 { if k < 27 { 179 } else { -1 } } else { if m < 179 { if k < 27 { 180 } else { -1 } } else { if k < 27 { 181 } else { -1 } } } } } }
pub open spec fn step_def_15(m: int, k: int) -> int { if m < 186 { if m < 183 { if m < 181 { if k < 27 { 142 } else { -1 } } else { if m < 182 { if k < 27 { 143 } else { -1 } } else { if k < 26 { 183 } else { if k < 27 { 184 } else { -1 } } } } } else { if m < 184 { if k < 27 { 185 } else { -1 } } else { if m < 185 { if k < 27 { 186 } else { -1 } } else { if k < 27 { 187 } else { -1 } } } } } else { if m < 189 { if m < 187 { if k < 27 { 188 } else { -1 } } else { if m < 188 { if k < 27 { 189 } else { -1 } } else { if k < 27 { 190 } else { -1 } } } } else { if m < 190 { if k < 27 { 191 } else { -1 } } else { if m < 191 { if k < 27 { 191 } else { if k < 28 { 192 } else { -1 } } } else { if k < 27 { 193 } else { if k < 28 { 192 } else { -1 } } } } } } }
pub open spec fn step_def_16(m: int, k: int) -> int { if m < 198 { if m < 195 { if m < 193 { if k < 26 { 183 } else { if k < 27 { 184 } else { -1 } } } else { if m < 194 { if k < 27 { 194 } else { if k < 28 { 192 } else { -1 } } } else { if k < 27 { 195 } else { if k < 28 { 192 } else { -1 } } } } } else { if m < 196 { if k < 27 { -1 } else { if k < 28 { 192 } else { -1 } } } else { if m < 197 { if k < 24 { if k < 23 { 197 } else { -1 } } else { if k < 27 { 197 } else { -1 } } } else { if k < 27 { -1 } else { if k < 28 { 198 } else { -1 } } } } } } else { if m < 201 { if m < 199 { if k < 27 { 199 } else { -1 } } else { if m < 200 { if k < 27 { 200 } else { -1 } } else { if k < 27 { 201 } else { if k < 28 { 198 } else { -1 } } } } } else { if m < 202 { if k < 27 { 202 } else { if k < 28 { 198 } else { -1 } } } else { if m < 203 { if k < 27 { 203 } else { if k < 28 { 198 } else { -1 } } } else { if k < 27 { 204 } else { if k < 28 { 198 } else { -1 } } } } } } }
pub open spec fn step_def_17(m: int, k: int) -> int { if m < 210 { if m < 207 { if m < 205 { if k < 27 { 205 } else { if k < 28 { 198 } else { -1 } } } else { if m < 206 { if k < 27 { 206 } else { if k < 28 { 198 } else { -1 } } } else { if k < 27 { -1 } else { if k < 28 { 198 } else { -1 } } } } } else { if m < 208 { if k < 27 { 208 } else { -1 } } else { if m < 209 { if k < 27 { 140 } else { -1 } } else { if k < 24 { if k < 23 { 210 } else { -1 } } else { if k < 27 { 210 } else { -1 } } } } } } else { if m < 213 { if m < 211 { if k < 27 { -1 } else { if k < 28 { 211 } else { -1 } } } else { if m < 212 { if k < 27 { 212 } else { -1 } } else { if k < 27 { 213 } else { -1 } } } } else { if m < 214 { if k < 27 { 214 } else { if k < 28 { 215 } else { -1 } } } else { if m < 215 { if k < 27 { 216 } else { if k < 28 { 215 } else { -1 } } } else { if k < 24 { if k < 23 { 217 } else { 212 } } else { if k < 27 { 217 } else { -1 } } } } } } }
pub open spec fn step_def_18(m: int, k: int) -> int { if m < 219 { if m < 217 { if k < 27 { 218 } else { if k < 28 { 215 } else { -1 } } } else { if m < 218 { if k < 27 { 213 } else { if k < 28 { 211 } else { -1 } } } else { if k < 27 { 219 } else { if k < 28 { 215 } else { -1 } } } } } else { if m < 220 { if k < 27 { 220 } else { if k < 28 { 215 } else { -1 } } } else { if m < 221 { if k < 27 { 221 } else { if k < 28 { 215 } else { -1 } } } else { if k < 27 { -1 } else { if k < 28 { 215 } else { -1 } } } } } }
#[verifier::memoize] pub open spec fn step_def(m: int, k: int) -> int { if m < 108 { if m < 48 { if m < 24 { if m < 12 { step_def_0(m, k) } else { step_def_1(m, k) } } else { if m < 36 { step_def_2(m, k) } else { step_def_3(m, k) } } } else { if m < 72 { if m < 60 { step_def_4(m, k) } else { step_def_5(m, k) } } else { if m < 84 { step_def_6(m, k) } else { if m < 96 { step_def_7(m, k) } else { step_def_8(m, k) } } } } } else { if m < 168 { if m < 132 { if m < 120 { step_def_9(m, k) } else { step_def_10(m, k) } } else { if m < 144 { step_def_11(m, k) } else { if m < 156 { step_def_12(m, k) } else { step_def_13(m, k) } } } } else { if m < 192 { if m < 180 { step_def_14(m, k) } else { step_def_15(m, k) } } else { if m < 204 { step_def_16(m, k) } else { if m < 216 { step_def_17(m, k) } else { step_def_18(m, k) } } } } } }
#[verifier::opaque] pub open spec fn step(m: int, k: int) -> int { step_def(m, k) }
pub open spec fn acc_def_0(m: int) -> bool { if m < 32 { if m < 16 { if m < 8 { if m < 4 { if m < 2 { if m < 1 { false } else { false } } else { if m < 3 { false } else { false } } } else { if m < 6 { if m < 5 { false } else { false } } else { if m < 7 { true } else { true } } } } else { if m < 12 { if m < 10 { if m < 9 { false } else { true } } else { if m < 11 { false } else { true } } } else { if m < 14 { if m < 13 { false } else { false } } else { if m < 15 { false } else { false } } } } } else { if m < 24 { if m < 20 { if m < 18 { if m < 17 { false } else { false } } else { if m < 19 { false } else { false } } } else { if m < 22 { if m < 21 { false } else { false } } else { if m < 23 { false } else { false } } } } else { if m < 28 { if m < 26 { if m < 25 { false } else { true } } else { if m < 27 { true } else { true } } } else { if m < 30 { if m < 29 { false } else { false } } else { if m < 31 { false } else { false } } } } } } else { if m < 48 { if m < 40 { if m < 36 { if m < 34 { if m < 33 { false } else { false } } else { if m < 35 { false } else { false } } } else { if m < 38 { if m < 37 { false } else { false } } else { if m < 39 { false } else { false } } } } else { if m < 44 { if m < 42 { if m < 41 { false } else { false } } else { if m < 43 { false } else { false } } } else { if m < 46 { if m < 45 { true } else { true } } else { if m < 47 { false } else { true } } } } } else { if m < 56 { if m < 52 { if m < 50 { if m < 49 { false } else { false } } else { if m < 51 { false } else { false } } } else { if m < 54 { if m < 53 { true } else { true } } else { if m < 55 { false } else { false } } } } else { if m < 60 { if m < 58 { if m < 57 { false } else { false } } else { if m < 59 { false } else { false } } } else { if m < 62 { if m < 61 { false } else { true } } else { if m < 63 { true } else { false } } } } } } }
pub open spec fn acc_def_1(m: int) -> bool { if m < 96 { if m < 80 { if m < 72 { if m < 68 { if m < 66 { if m < 65 { false } else { true } } else { if m < 67 { false } else { false } } } else { if m < 70 { if m < 69 { false } else { false } } else { if m < 71 { true } else { false } } } } else { if m < 76 { if m < 74 { if m < 73 { false } else { false } } else { if m < 75 { false } else { false } } } else { if m < 78 { if m < 77 { false } else { true } } else { if m < 79 { true } else { true } } } } } else { if m < 88 { if m < 84 { if m < 82 { if m < 81 { true } else { true } } else { if m < 83 { true } else { false } } } else { if m < 86 { if m < 85 { false } else { false } } else { if m < 87 { false } else { false } } } } else { if m < 92 { if m < 90 { if m < 89 { true } else { true } } else { if m < 91 { false } else { false } } } else { if m < 94 { if m < 93 { false } else { false } } else { if m < 95 { false } else { false } } } } } } else { if m < 112 { if m < 104 { if m < 100 { if m < 98 { if m < 97 { true } else { true } } else { if m < 99 { false } else { true } } } else { if m < 102 { if m < 101 { false } else { false } } else { if m < 103 { false } else { true } } } } else { if m < 108 { if m < 106 { if m < 105 { false } else { false } } else { if m < 107 { false } else { false } } } else { if m < 110 { if m < 109 { false } else { false } } else { if m < 111 { false } else { true } } } } } else { if m < 120 { if m < 116 { if m < 114 { if m < 113 { true } else { false } } else { if m < 115 { false } else { true } } } else { if m < 118 { if m < 117 { true } else { false } } else { if m < 119 { false } else { true } } } } else { if m < 124 { if m < 122 { if m < 121 { true } else { true } } else { if m < 123 { true } else { true } } } else { if m < 126 { if m < 125 { true } else { true } } else { if m < 127 { true } else { true } } } } } } }
pub open spec fn acc_def_2(m: int) -> bool { if m < 160 { if m < 144 { if m < 136 { if m < 132 { if m < 130 { if m < 129 { false } else { true } } else { if m < 131 { false } else { false } } } else { if m < 134 { if m < 133 { true } else { true } } else { if m < 135 { true } else { true } } } } else { if m < 140 { if m < 138 { if m < 137 { false } else { false } } else { if m < 139 { false } else { true } } } else { if m < 142 { if m < 141 { true } else { true } } else { if m < 143 { true } else { true } } } } } else { if m < 152 { if m < 148 { if m < 146 { if m < 145 { true } else { true } } else { if m < 147 { false } else { false } } } else { if m < 150 { if m < 149 { false } else { true } } else { if m < 151 { true } else { false } } } } else { if m < 156 { if m < 154 { if m < 153 { true } else { false } } else { if m < 155 { true } else { false } } } else { if m < 158 { if m < 157 { true } else { true } } else { if m < 159 { true } else { false } } } } } } else { if m < 176 { if m < 168 { if m < 164 { if m < 162 { if m < 161 { false } else { false } } else { if m < 163 { true } else { false } } } else { if m < 166 { if m < 165 { false } else { false } } else { if m < 167 { false } else { false } } } } else { if m < 172 { if m < 170 { if m < 169 { true } else { true } } else { if m < 171 { false } else { false } } } else { if m < 174 { if m < 173 { false } else { false } } else { if m < 175 { false } else { false } } } } } else { if m < 184 { if m < 180 { if m < 178 { if m < 177 { false } else { false } } else { if m < 179 { false } else { false } } } else { if m < 182 { if m < 181 { false } else { false } } else { if m < 183 { true } else { false } } } } else { if m < 188 { if m < 186 { if m < 185 { false } else { false } } else { if m < 187 { false } else { false } } } else { if m < 190 { if m < 189 { false } else { false } } else { if m < 191 { true } else { true } } } } } } }
pub open spec fn acc_def_3(m: int) -> bool { if m < 207 { if m < 199 { if m < 195 { if m < 193 { false } else { if m < 194 { true } else { true } } } else { if m < 197 { if m < 196 { true } else { false } } else { if m < 198 { false } else { false } } } } else { if m < 203 { if m < 201 { if m < 200 { false } else { true } } else { if m < 202 { true } else { true } } } else { if m < 205 { if m < 204 { true } else { true } } else { if m < 206 { true } else { true } } } } } else { if m < 214 { if m < 210 { if m < 208 { false } else { if m < 209 { false } else { true } } } else { if m < 212 { if m < 211 { false } else { false } } else { if m < 213 { false } else { true } } } } else { if m < 218 { if m < 216 { if m < 215 { true } else { false } } else { if m < 217 { true } else { false } } } else { if m < 220 { if m < 219 { true } else { true } } else { if m < 221 { true } else { true } } } } } }
#[verifier::memoize] pub open spec fn acc_def(m: int) -> bool { if m < 128 { if m < 64 { acc_def_0(m) } else { acc_def_1(m) } } else { if m < 192 { acc_def_2(m) } else { acc_def_3(m) } } }
#[verifier::opaque] pub open spec fn acc(m: int) -> bool { acc_def(m) }
pub open spec fn n_state() -> int { 222 }
pub open spec fn root_language_tag() -> int { 306 }
pub open spec fn set_language_tag() -> int { 0 }
pub open spec fn init_language_tag() -> int { 0 }
pub open spec fn root_privateuse() -> int { 72 }
pub open spec fn set_privateuse() -> int { 1 }
pub open spec fn init_privateuse() -> int { 136 }
pub open spec fn root_privateuse_subtag() -> int { 68 }
pub open spec fn set_privateuse_subtag() -> int { 2 }
pub open spec fn init_privateuse_subtag() -> int { 138 }
pub open spec fn root_langtag() -> int { 79 }
pub open spec fn set_langtag() -> int { 3 }
pub open spec fn init_langtag() -> int { 146 }
pub open spec fn root_language() -> int { 26 }
pub open spec fn set_language() -> int { 4 }
pub open spec fn init_language() -> int { 147 }
pub open spec fn root_primary() -> int { 313 }
pub open spec fn set_primary() -> int { 5 }
pub open spec fn init_primary() -> int { 166 }
pub open spec fn root_extlang() -> int { 12 }
pub open spec fn set_extlang() -> int { 6 }
pub open spec fn init_extlang() -> int { 151 }
pub open spec fn root_extlang_tag() -> int { 7 }
pub open spec fn set_extlang_tag() -> int { 7 }
pub open spec fn init_extlang_tag() -> int { 163 }
pub open spec fn root_script() -> int { 16 }
pub open spec fn set_script() -> int { 8 }
pub open spec fn init_script() -> int { 170 }
pub open spec fn root_region() -> int { 32 }
pub open spec fn set_region() -> int { 9 }
pub open spec fn init_region() -> int { 171 }
pub open spec fn root_variant() -> int { 49 }
pub open spec fn set_variant() -> int { 10 }
pub open spec fn init_variant() -> int { 174 }
pub open spec fn root_variants() -> int { 315 }
pub open spec fn set_variants() -> int { 11 }
pub open spec fn init_variants() -> int { 182 }
pub open spec fn root_extension() -> int { 63 }
pub open spec fn set_extension() -> int { 12 }
pub open spec fn init_extension() -> int { 196 }
pub open spec fn root_extension_subtag() -> int { 59 }
pub open spec fn set_extension_subtag() -> int { 13 }
pub open spec fn init_extension_subtag() -> int { 207 }
pub open spec fn root_extensions() -> int { 317 }
pub open spec fn set_extensions() -> int { 14 }
pub open spec fn init_extensions() -> int { 209 }
