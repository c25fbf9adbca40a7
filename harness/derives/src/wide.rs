// Written by tools/gen_derives.py.
use super::*;

model_struct! { #[derive(Serialize, Deserialize)] W0 {  } }
model_struct! { #[derive(Serialize, Deserialize)] W1 { f0 "f0": String } }
model_struct! { #[derive(Serialize, Deserialize)] W2 { f0 "f0": Option<u8>, f1 "f1": (u8, bool) } }
model_struct! { #[derive(Serialize, Deserialize)] W3 { f0 "f0": bool, f1 "f1": u64, f2 "f2": i64 } }
model_struct! { #[derive(Serialize, Deserialize)] W4 { f0 "f0": i16, f1 "f1": Option<Vec<Option<u8>>>, f2 "f2": u8, f3 "f3": Vec<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] W5 { f0 "f0": Vec<u8>, f1 "f1": [u8; 2], f2 "f2": String, f3 "f3": Option<String>, f4 "f4": Box<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] W6 { f0 "f0": Option<String>, f1 "f1": Box<u8>, f2 "f2": Option<u8>, f3 "f3": (u8, bool), f4 "f4": f64, f5 "f5": bool } }
model_struct! { #[derive(Serialize, Deserialize)] W7 { f0 "f0": (u8, bool), f1 "f1": f64, f2 "f2": bool, f3 "f3": u64, f4 "f4": i64, f5 "f5": i16, f6 "f6": Option<Vec<Option<u8>>> } }
model_struct! { #[derive(Serialize, Deserialize)] W8 { f0 "f0": u64, f1 "f1": i64, f2 "f2": i16, f3 "f3": Option<Vec<Option<u8>>>, f4 "f4": u8, f5 "f5": Vec<u8>, f6 "f6": [u8; 2], f7 "f7": String } }
model_struct! { #[derive(Serialize, Deserialize)] W9 { f0 "f0": Option<Vec<Option<u8>>>, f1 "f1": u8, f2 "f2": Vec<u8>, f3 "f3": [u8; 2], f4 "f4": String, f5 "f5": Option<String>, f6 "f6": Box<u8>, f7 "f7": Option<u8>, f8 "f8": (u8, bool) } }
model_struct! { #[derive(Serialize, Deserialize)] W12 { f0 "f0": f64, f1 "f1": bool, f2 "f2": u64, f3 "f3": i64, f4 "f4": i16, f5 "f5": Option<Vec<Option<u8>>>, f6 "f6": u8, f7 "f7": Vec<u8>, f8 "f8": [u8; 2], f9 "f9": String, f10 "f10": Option<String>, f11 "f11": Box<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] W16 { f0 "f0": Option<u8>, f1 "f1": (u8, bool), f2 "f2": f64, f3 "f3": bool, f4 "f4": u64, f5 "f5": i64, f6 "f6": i16, f7 "f7": Option<Vec<Option<u8>>>, f8 "f8": u8, f9 "f9": Vec<u8>, f10 "f10": [u8; 2], f11 "f11": String, f12 "f12": Option<String>, f13 "f13": Box<u8>, f14 "f14": Option<u8>, f15 "f15": (u8, bool) } }
model_struct! { #[derive(Serialize, Deserialize)] W17 { f0 "f0": bool, f1 "f1": u64, f2 "f2": i64, f3 "f3": i16, f4 "f4": Option<Vec<Option<u8>>>, f5 "f5": u8, f6 "f6": Vec<u8>, f7 "f7": [u8; 2], f8 "f8": String, f9 "f9": Option<String>, f10 "f10": Box<u8>, f11 "f11": Option<u8>, f12 "f12": (u8, bool), f13 "f13": f64, f14 "f14": bool, f15 "f15": u64, f16 "f16": i64 } }
model_struct! { #[derive(Serialize, Deserialize)] W24 { f0 "f0": [u8; 2], f1 "f1": String, f2 "f2": Option<String>, f3 "f3": Box<u8>, f4 "f4": Option<u8>, f5 "f5": (u8, bool), f6 "f6": f64, f7 "f7": bool, f8 "f8": u64, f9 "f9": i64, f10 "f10": i16, f11 "f11": Option<Vec<Option<u8>>>, f12 "f12": u8, f13 "f13": Vec<u8>, f14 "f14": [u8; 2], f15 "f15": String, f16 "f16": Option<String>, f17 "f17": Box<u8>, f18 "f18": Option<u8>, f19 "f19": (u8, bool), f20 "f20": f64, f21 "f21": bool, f22 "f22": u64, f23 "f23": i64 } }
model_struct! { #[derive(Serialize, Deserialize)] W32 { f0 "f0": i16, f1 "f1": Option<Vec<Option<u8>>>, f2 "f2": u8, f3 "f3": Vec<u8>, f4 "f4": [u8; 2], f5 "f5": String, f6 "f6": Option<String>, f7 "f7": Box<u8>, f8 "f8": Option<u8>, f9 "f9": (u8, bool), f10 "f10": f64, f11 "f11": bool, f12 "f12": u64, f13 "f13": i64, f14 "f14": i16, f15 "f15": Option<Vec<Option<u8>>>, f16 "f16": u8, f17 "f17": Vec<u8>, f18 "f18": [u8; 2], f19 "f19": String, f20 "f20": Option<String>, f21 "f21": Box<u8>, f22 "f22": Option<u8>, f23 "f23": (u8, bool), f24 "f24": f64, f25 "f25": bool, f26 "f26": u64, f27 "f27": i64, f28 "f28": i16, f29 "f29": Option<Vec<Option<u8>>>, f30 "f30": u8, f31 "f31": Vec<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] W33 { f0 "f0": Vec<u8>, f1 "f1": [u8; 2], f2 "f2": String, f3 "f3": Option<String>, f4 "f4": Box<u8>, f5 "f5": Option<u8>, f6 "f6": (u8, bool), f7 "f7": f64, f8 "f8": bool, f9 "f9": u64, f10 "f10": i64, f11 "f11": i16, f12 "f12": Option<Vec<Option<u8>>>, f13 "f13": u8, f14 "f14": Vec<u8>, f15 "f15": [u8; 2], f16 "f16": String, f17 "f17": Option<String>, f18 "f18": Box<u8>, f19 "f19": Option<u8>, f20 "f20": (u8, bool), f21 "f21": f64, f22 "f22": bool, f23 "f23": u64, f24 "f24": i64, f25 "f25": i16, f26 "f26": Option<Vec<Option<u8>>>, f27 "f27": u8, f28 "f28": Vec<u8>, f29 "f29": [u8; 2], f30 "f30": String, f31 "f31": Option<String>, f32 "f32": Box<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] W64 { f0 "f0": u8, f1 "f1": Option<u8>, f2 "f2": u16, f3 "f3": u8, f4 "f4": Option<u8>, f5 "f5": u16, f6 "f6": u8, f7 "f7": Option<u8>, f8 "f8": u16, f9 "f9": u8, f10 "f10": Option<u8>, f11 "f11": u16, f12 "f12": u8, f13 "f13": Option<u8>, f14 "f14": u16, f15 "f15": u8, f16 "f16": Option<u8>, f17 "f17": u16, f18 "f18": u8, f19 "f19": Option<u8>, f20 "f20": u16, f21 "f21": u8, f22 "f22": Option<u8>, f23 "f23": u16, f24 "f24": u8, f25 "f25": Option<u8>, f26 "f26": u16, f27 "f27": u8, f28 "f28": Option<u8>, f29 "f29": u16, f30 "f30": u8, f31 "f31": Option<u8>, f32 "f32": u16, f33 "f33": u8, f34 "f34": Option<u8>, f35 "f35": u16, f36 "f36": u8, f37 "f37": Option<u8>, f38 "f38": u16, f39 "f39": u8, f40 "f40": Option<u8>, f41 "f41": u16, f42 "f42": u8, f43 "f43": Option<u8>, f44 "f44": u16, f45 "f45": u8, f46 "f46": Option<u8>, f47 "f47": u16, f48 "f48": u8, f49 "f49": Option<u8>, f50 "f50": u16, f51 "f51": u8, f52 "f52": Option<u8>, f53 "f53": u16, f54 "f54": u8, f55 "f55": Option<u8>, f56 "f56": u16, f57 "f57": u8, f58 "f58": Option<u8>, f59 "f59": u16, f60 "f60": u8, f61 "f61": Option<u8>, f62 "f62": u16, f63 "f63": u8 } }
model_struct! { #[derive(Serialize, Deserialize)] W65 { f0 "f0": u8, f1 "f1": Option<u8>, f2 "f2": u16, f3 "f3": u8, f4 "f4": Option<u8>, f5 "f5": u16, f6 "f6": u8, f7 "f7": Option<u8>, f8 "f8": u16, f9 "f9": u8, f10 "f10": Option<u8>, f11 "f11": u16, f12 "f12": u8, f13 "f13": Option<u8>, f14 "f14": u16, f15 "f15": u8, f16 "f16": Option<u8>, f17 "f17": u16, f18 "f18": u8, f19 "f19": Option<u8>, f20 "f20": u16, f21 "f21": u8, f22 "f22": Option<u8>, f23 "f23": u16, f24 "f24": u8, f25 "f25": Option<u8>, f26 "f26": u16, f27 "f27": u8, f28 "f28": Option<u8>, f29 "f29": u16, f30 "f30": u8, f31 "f31": Option<u8>, f32 "f32": u16, f33 "f33": u8, f34 "f34": Option<u8>, f35 "f35": u16, f36 "f36": u8, f37 "f37": Option<u8>, f38 "f38": u16, f39 "f39": u8, f40 "f40": Option<u8>, f41 "f41": u16, f42 "f42": u8, f43 "f43": Option<u8>, f44 "f44": u16, f45 "f45": u8, f46 "f46": Option<u8>, f47 "f47": u16, f48 "f48": u8, f49 "f49": Option<u8>, f50 "f50": u16, f51 "f51": u8, f52 "f52": Option<u8>, f53 "f53": u16, f54 "f54": u8, f55 "f55": Option<u8>, f56 "f56": u16, f57 "f57": u8, f58 "f58": Option<u8>, f59 "f59": u16, f60 "f60": u8, f61 "f61": Option<u8>, f62 "f62": u16, f63 "f63": u8, f64 "f64": Option<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] W130 { f0 "f0": u8, f1 "f1": Option<u8>, f2 "f2": u16, f3 "f3": u8, f4 "f4": Option<u8>, f5 "f5": u16, f6 "f6": u8, f7 "f7": Option<u8>, f8 "f8": u16, f9 "f9": u8, f10 "f10": Option<u8>, f11 "f11": u16, f12 "f12": u8, f13 "f13": Option<u8>, f14 "f14": u16, f15 "f15": u8, f16 "f16": Option<u8>, f17 "f17": u16, f18 "f18": u8, f19 "f19": Option<u8>, f20 "f20": u16, f21 "f21": u8, f22 "f22": Option<u8>, f23 "f23": u16, f24 "f24": u8, f25 "f25": Option<u8>, f26 "f26": u16, f27 "f27": u8, f28 "f28": Option<u8>, f29 "f29": u16, f30 "f30": u8, f31 "f31": Option<u8>, f32 "f32": u16, f33 "f33": u8, f34 "f34": Option<u8>, f35 "f35": u16, f36 "f36": u8, f37 "f37": Option<u8>, f38 "f38": u16, f39 "f39": u8, f40 "f40": Option<u8>, f41 "f41": u16, f42 "f42": u8, f43 "f43": Option<u8>, f44 "f44": u16, f45 "f45": u8, f46 "f46": Option<u8>, f47 "f47": u16, f48 "f48": u8, f49 "f49": Option<u8>, f50 "f50": u16, f51 "f51": u8, f52 "f52": Option<u8>, f53 "f53": u16, f54 "f54": u8, f55 "f55": Option<u8>, f56 "f56": u16, f57 "f57": u8, f58 "f58": Option<u8>, f59 "f59": u16, f60 "f60": u8, f61 "f61": Option<u8>, f62 "f62": u16, f63 "f63": u8, f64 "f64": Option<u8>, f65 "f65": u16, f66 "f66": u8, f67 "f67": Option<u8>, f68 "f68": u16, f69 "f69": u8, f70 "f70": Option<u8>, f71 "f71": u16, f72 "f72": u8, f73 "f73": Option<u8>, f74 "f74": u16, f75 "f75": u8, f76 "f76": Option<u8>, f77 "f77": u16, f78 "f78": u8, f79 "f79": Option<u8>, f80 "f80": u16, f81 "f81": u8, f82 "f82": Option<u8>, f83 "f83": u16, f84 "f84": u8, f85 "f85": Option<u8>, f86 "f86": u16, f87 "f87": u8, f88 "f88": Option<u8>, f89 "f89": u16, f90 "f90": u8, f91 "f91": Option<u8>, f92 "f92": u16, f93 "f93": u8, f94 "f94": Option<u8>, f95 "f95": u16, f96 "f96": u8, f97 "f97": Option<u8>, f98 "f98": u16, f99 "f99": u8, f100 "f100": Option<u8>, f101 "f101": u16, f102 "f102": u8, f103 "f103": Option<u8>, f104 "f104": u16, f105 "f105": u8, f106 "f106": Option<u8>, f107 "f107": u16, f108 "f108": u8, f109 "f109": Option<u8>, f110 "f110": u16, f111 "f111": u8, f112 "f112": Option<u8>, f113 "f113": u16, f114 "f114": u8, f115 "f115": Option<u8>, f116 "f116": u16, f117 "f117": u8, f118 "f118": Option<u8>, f119 "f119": u16, f120 "f120": u8, f121 "f121": Option<u8>, f122 "f122": u16, f123 "f123": u8, f124 "f124": Option<u8>, f125 "f125": u16, f126 "f126": u8, f127 "f127": Option<u8>, f128 "f128": u16, f129 "f129": u8 } }
model_struct! { #[derive(Serialize, Deserialize)] W257 { f0 "f0": u8, f1 "f1": Option<u8>, f2 "f2": u16, f3 "f3": u8, f4 "f4": Option<u8>, f5 "f5": u16, f6 "f6": u8, f7 "f7": Option<u8>, f8 "f8": u16, f9 "f9": u8, f10 "f10": Option<u8>, f11 "f11": u16, f12 "f12": u8, f13 "f13": Option<u8>, f14 "f14": u16, f15 "f15": u8, f16 "f16": Option<u8>, f17 "f17": u16, f18 "f18": u8, f19 "f19": Option<u8>, f20 "f20": u16, f21 "f21": u8, f22 "f22": Option<u8>, f23 "f23": u16, f24 "f24": u8, f25 "f25": Option<u8>, f26 "f26": u16, f27 "f27": u8, f28 "f28": Option<u8>, f29 "f29": u16, f30 "f30": u8, f31 "f31": Option<u8>, f32 "f32": u16, f33 "f33": u8, f34 "f34": Option<u8>, f35 "f35": u16, f36 "f36": u8, f37 "f37": Option<u8>, f38 "f38": u16, f39 "f39": u8, f40 "f40": Option<u8>, f41 "f41": u16, f42 "f42": u8, f43 "f43": Option<u8>, f44 "f44": u16, f45 "f45": u8, f46 "f46": Option<u8>, f47 "f47": u16, f48 "f48": u8, f49 "f49": Option<u8>, f50 "f50": u16, f51 "f51": u8, f52 "f52": Option<u8>, f53 "f53": u16, f54 "f54": u8, f55 "f55": Option<u8>, f56 "f56": u16, f57 "f57": u8, f58 "f58": Option<u8>, f59 "f59": u16, f60 "f60": u8, f61 "f61": Option<u8>, f62 "f62": u16, f63 "f63": u8, f64 "f64": Option<u8>, f65 "f65": u16, f66 "f66": u8, f67 "f67": Option<u8>, f68 "f68": u16, f69 "f69": u8, f70 "f70": Option<u8>, f71 "f71": u16, f72 "f72": u8, f73 "f73": Option<u8>, f74 "f74": u16, f75 "f75": u8, f76 "f76": Option<u8>, f77 "f77": u16, f78 "f78": u8, f79 "f79": Option<u8>, f80 "f80": u16, f81 "f81": u8, f82 "f82": Option<u8>, f83 "f83": u16, f84 "f84": u8, f85 "f85": Option<u8>, f86 "f86": u16, f87 "f87": u8, f88 "f88": Option<u8>, f89 "f89": u16, f90 "f90": u8, f91 "f91": Option<u8>, f92 "f92": u16, f93 "f93": u8, f94 "f94": Option<u8>, f95 "f95": u16, f96 "f96": u8, f97 "f97": Option<u8>, f98 "f98": u16, f99 "f99": u8, f100 "f100": Option<u8>, f101 "f101": u16, f102 "f102": u8, f103 "f103": Option<u8>, f104 "f104": u16, f105 "f105": u8, f106 "f106": Option<u8>, f107 "f107": u16, f108 "f108": u8, f109 "f109": Option<u8>, f110 "f110": u16, f111 "f111": u8, f112 "f112": Option<u8>, f113 "f113": u16, f114 "f114": u8, f115 "f115": Option<u8>, f116 "f116": u16, f117 "f117": u8, f118 "f118": Option<u8>, f119 "f119": u16, f120 "f120": u8, f121 "f121": Option<u8>, f122 "f122": u16, f123 "f123": u8, f124 "f124": Option<u8>, f125 "f125": u16, f126 "f126": u8, f127 "f127": Option<u8>, f128 "f128": u16, f129 "f129": u8, f130 "f130": Option<u8>, f131 "f131": u16, f132 "f132": u8, f133 "f133": Option<u8>, f134 "f134": u16, f135 "f135": u8, f136 "f136": Option<u8>, f137 "f137": u16, f138 "f138": u8, f139 "f139": Option<u8>, f140 "f140": u16, f141 "f141": u8, f142 "f142": Option<u8>, f143 "f143": u16, f144 "f144": u8, f145 "f145": Option<u8>, f146 "f146": u16, f147 "f147": u8, f148 "f148": Option<u8>, f149 "f149": u16, f150 "f150": u8, f151 "f151": Option<u8>, f152 "f152": u16, f153 "f153": u8, f154 "f154": Option<u8>, f155 "f155": u16, f156 "f156": u8, f157 "f157": Option<u8>, f158 "f158": u16, f159 "f159": u8, f160 "f160": Option<u8>, f161 "f161": u16, f162 "f162": u8, f163 "f163": Option<u8>, f164 "f164": u16, f165 "f165": u8, f166 "f166": Option<u8>, f167 "f167": u16, f168 "f168": u8, f169 "f169": Option<u8>, f170 "f170": u16, f171 "f171": u8, f172 "f172": Option<u8>, f173 "f173": u16, f174 "f174": u8, f175 "f175": Option<u8>, f176 "f176": u16, f177 "f177": u8, f178 "f178": Option<u8>, f179 "f179": u16, f180 "f180": u8, f181 "f181": Option<u8>, f182 "f182": u16, f183 "f183": u8, f184 "f184": Option<u8>, f185 "f185": u16, f186 "f186": u8, f187 "f187": Option<u8>, f188 "f188": u16, f189 "f189": u8, f190 "f190": Option<u8>, f191 "f191": u16, f192 "f192": u8, f193 "f193": Option<u8>, f194 "f194": u16, f195 "f195": u8, f196 "f196": Option<u8>, f197 "f197": u16, f198 "f198": u8, f199 "f199": Option<u8>, f200 "f200": u16, f201 "f201": u8, f202 "f202": Option<u8>, f203 "f203": u16, f204 "f204": u8, f205 "f205": Option<u8>, f206 "f206": u16, f207 "f207": u8, f208 "f208": Option<u8>, f209 "f209": u16, f210 "f210": u8, f211 "f211": Option<u8>, f212 "f212": u16, f213 "f213": u8, f214 "f214": Option<u8>, f215 "f215": u16, f216 "f216": u8, f217 "f217": Option<u8>, f218 "f218": u16, f219 "f219": u8, f220 "f220": Option<u8>, f221 "f221": u16, f222 "f222": u8, f223 "f223": Option<u8>, f224 "f224": u16, f225 "f225": u8, f226 "f226": Option<u8>, f227 "f227": u16, f228 "f228": u8, f229 "f229": Option<u8>, f230 "f230": u16, f231 "f231": u8, f232 "f232": Option<u8>, f233 "f233": u16, f234 "f234": u8, f235 "f235": Option<u8>, f236 "f236": u16, f237 "f237": u8, f238 "f238": Option<u8>, f239 "f239": u16, f240 "f240": u8, f241 "f241": Option<u8>, f242 "f242": u16, f243 "f243": u8, f244 "f244": Option<u8>, f245 "f245": u16, f246 "f246": u8, f247 "f247": Option<u8>, f248 "f248": u16, f249 "f249": u8, f250 "f250": Option<u8>, f251 "f251": u16, f252 "f252": u8, f253 "f253": Option<u8>, f254 "f254": u16, f255 "f255": u8, f256 "f256": Option<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] R2 { #[serde(rename = "g1")] g0 "g1": u16, #[serde(rename = "g0")] g1 "g0": u16 } }
model_struct! { #[derive(Serialize, Deserialize)] R3 { #[serde(rename = "g1")] g0 "g1": u16, #[serde(rename = "g2")] g1 "g2": u16, #[serde(rename = "g0")] g2 "g0": u16 } }
model_struct! { #[derive(Serialize, Deserialize)] R8 { #[serde(rename = "g1")] g0 "g1": u16, #[serde(rename = "g2")] g1 "g2": u16, #[serde(rename = "g3")] g2 "g3": u16, #[serde(rename = "g4")] g3 "g4": u16, #[serde(rename = "g5")] g4 "g5": u16, #[serde(rename = "g6")] g5 "g6": u16, #[serde(rename = "g7")] g6 "g7": u16, #[serde(rename = "g0")] g7 "g0": u16 } }
model_struct! { #[derive(Serialize, Deserialize)] R40 { #[serde(rename = "g1")] g0 "g1": u16, #[serde(rename = "g2")] g1 "g2": u16, #[serde(rename = "g3")] g2 "g3": u16, #[serde(rename = "g4")] g3 "g4": u16, #[serde(rename = "g5")] g4 "g5": u16, #[serde(rename = "g6")] g5 "g6": u16, #[serde(rename = "g7")] g6 "g7": u16, #[serde(rename = "g8")] g7 "g8": u16, #[serde(rename = "g9")] g8 "g9": u16, #[serde(rename = "g10")] g9 "g10": u16, #[serde(rename = "g11")] g10 "g11": u16, #[serde(rename = "g12")] g11 "g12": u16, #[serde(rename = "g13")] g12 "g13": u16, #[serde(rename = "g14")] g13 "g14": u16, #[serde(rename = "g15")] g14 "g15": u16, #[serde(rename = "g16")] g15 "g16": u16, #[serde(rename = "g17")] g16 "g17": u16, #[serde(rename = "g18")] g17 "g18": u16, #[serde(rename = "g19")] g18 "g19": u16, #[serde(rename = "g20")] g19 "g20": u16, #[serde(rename = "g21")] g20 "g21": u16, #[serde(rename = "g22")] g21 "g22": u16, #[serde(rename = "g23")] g22 "g23": u16, #[serde(rename = "g24")] g23 "g24": u16, #[serde(rename = "g25")] g24 "g25": u16, #[serde(rename = "g26")] g25 "g26": u16, #[serde(rename = "g27")] g26 "g27": u16, #[serde(rename = "g28")] g27 "g28": u16, #[serde(rename = "g29")] g28 "g29": u16, #[serde(rename = "g30")] g29 "g30": u16, #[serde(rename = "g31")] g30 "g31": u16, #[serde(rename = "g32")] g31 "g32": u16, #[serde(rename = "g33")] g32 "g33": u16, #[serde(rename = "g34")] g33 "g34": u16, #[serde(rename = "g35")] g34 "g35": u16, #[serde(rename = "g36")] g35 "g36": u16, #[serde(rename = "g37")] g36 "g37": u16, #[serde(rename = "g38")] g37 "g38": u16, #[serde(rename = "g39")] g38 "g39": u16, #[serde(rename = "g0")] g39 "g0": u16 } }
model_struct! { #[derive(Serialize, Deserialize)] O2 { h0 "h0": Option<u8>, h1 "h1": Option<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] O7 { h0 "h0": Option<u8>, h1 "h1": Option<u8>, h2 "h2": Option<u8>, h3 "h3": Option<u8>, h4 "h4": Option<u8>, h5 "h5": Option<u8>, h6 "h6": Option<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] O33 { h0 "h0": Option<u8>, h1 "h1": Option<u8>, h2 "h2": Option<u8>, h3 "h3": Option<u8>, h4 "h4": Option<u8>, h5 "h5": Option<u8>, h6 "h6": Option<u8>, h7 "h7": Option<u8>, h8 "h8": Option<u8>, h9 "h9": Option<u8>, h10 "h10": Option<u8>, h11 "h11": Option<u8>, h12 "h12": Option<u8>, h13 "h13": Option<u8>, h14 "h14": Option<u8>, h15 "h15": Option<u8>, h16 "h16": Option<u8>, h17 "h17": Option<u8>, h18 "h18": Option<u8>, h19 "h19": Option<u8>, h20 "h20": Option<u8>, h21 "h21": Option<u8>, h22 "h22": Option<u8>, h23 "h23": Option<u8>, h24 "h24": Option<u8>, h25 "h25": Option<u8>, h26 "h26": Option<u8>, h27 "h27": Option<u8>, h28 "h28": Option<u8>, h29 "h29": Option<u8>, h30 "h30": Option<u8>, h31 "h31": Option<u8>, h32 "h32": Option<u8> } }
model_enum! { #[derive(Serialize, Deserialize)] E1 { V0 "V0" } }
model_enum! { #[derive(Serialize, Deserialize)] E2 { V0 "V0", V1 "V1" } }
model_enum! { #[derive(Serialize, Deserialize)] E3 { V0 "V0", V1 "V1", V2 "V2" } }
model_enum! { #[derive(Serialize, Deserialize)] E4 { V0 "V0", V1 "V1", V2 "V2", V3 "V3" } }
model_enum! { #[derive(Serialize, Deserialize)] E5 { V0 "V0", V1 "V1", V2 "V2", V3 "V3", V4 "V4" } }
model_enum! { #[derive(Serialize, Deserialize)] E8 { V0 "V0", V1 "V1", V2 "V2", V3 "V3", V4 "V4", V5 "V5", V6 "V6", V7 "V7" } }
model_enum! { #[derive(Serialize, Deserialize)] E16 { V0 "V0", V1 "V1", V2 "V2", V3 "V3", V4 "V4", V5 "V5", V6 "V6", V7 "V7", V8 "V8", V9 "V9", V10 "V10", V11 "V11", V12 "V12", V13 "V13", V14 "V14", V15 "V15" } }
model_enum! { #[derive(Serialize, Deserialize)] E17 { V0 "V0", V1 "V1", V2 "V2", V3 "V3", V4 "V4", V5 "V5", V6 "V6", V7 "V7", V8 "V8", V9 "V9", V10 "V10", V11 "V11", V12 "V12", V13 "V13", V14 "V14", V15 "V15", V16 "V16" } }
model_enum! { #[derive(Serialize, Deserialize)] E26 { V0 "V0", V1 "V1", V2 "V2", V3 "V3", V4 "V4", V5 "V5", V6 "V6", V7 "V7", V8 "V8", V9 "V9", V10 "V10", V11 "V11", V12 "V12", V13 "V13", V14 "V14", V15 "V15", V16 "V16", V17 "V17", V18 "V18", V19 "V19", V20 "V20", V21 "V21", V22 "V22", V23 "V23", V24 "V24", V25 "V25" } }
model_enum! { #[derive(Serialize, Deserialize)] E64 { V0 "V0", V1 "V1", V2 "V2", V3 "V3", V4 "V4", V5 "V5", V6 "V6", V7 "V7", V8 "V8", V9 "V9", V10 "V10", V11 "V11", V12 "V12", V13 "V13", V14 "V14", V15 "V15", V16 "V16", V17 "V17", V18 "V18", V19 "V19", V20 "V20", V21 "V21", V22 "V22", V23 "V23", V24 "V24", V25 "V25", V26 "V26", V27 "V27", V28 "V28", V29 "V29", V30 "V30", V31 "V31", V32 "V32", V33 "V33", V34 "V34", V35 "V35", V36 "V36", V37 "V37", V38 "V38", V39 "V39", V40 "V40", V41 "V41", V42 "V42", V43 "V43", V44 "V44", V45 "V45", V46 "V46", V47 "V47", V48 "V48", V49 "V49", V50 "V50", V51 "V51", V52 "V52", V53 "V53", V54 "V54", V55 "V55", V56 "V56", V57 "V57", V58 "V58", V59 "V59", V60 "V60", V61 "V61", V62 "V62", V63 "V63" } }
model_enum! { #[derive(Serialize, Deserialize)] E129 { V0 "V0", V1 "V1", V2 "V2", V3 "V3", V4 "V4", V5 "V5", V6 "V6", V7 "V7", V8 "V8", V9 "V9", V10 "V10", V11 "V11", V12 "V12", V13 "V13", V14 "V14", V15 "V15", V16 "V16", V17 "V17", V18 "V18", V19 "V19", V20 "V20", V21 "V21", V22 "V22", V23 "V23", V24 "V24", V25 "V25", V26 "V26", V27 "V27", V28 "V28", V29 "V29", V30 "V30", V31 "V31", V32 "V32", V33 "V33", V34 "V34", V35 "V35", V36 "V36", V37 "V37", V38 "V38", V39 "V39", V40 "V40", V41 "V41", V42 "V42", V43 "V43", V44 "V44", V45 "V45", V46 "V46", V47 "V47", V48 "V48", V49 "V49", V50 "V50", V51 "V51", V52 "V52", V53 "V53", V54 "V54", V55 "V55", V56 "V56", V57 "V57", V58 "V58", V59 "V59", V60 "V60", V61 "V61", V62 "V62", V63 "V63", V64 "V64", V65 "V65", V66 "V66", V67 "V67", V68 "V68", V69 "V69", V70 "V70", V71 "V71", V72 "V72", V73 "V73", V74 "V74", V75 "V75", V76 "V76", V77 "V77", V78 "V78", V79 "V79", V80 "V80", V81 "V81", V82 "V82", V83 "V83", V84 "V84", V85 "V85", V86 "V86", V87 "V87", V88 "V88", V89 "V89", V90 "V90", V91 "V91", V92 "V92", V93 "V93", V94 "V94", V95 "V95", V96 "V96", V97 "V97", V98 "V98", V99 "V99", V100 "V100", V101 "V101", V102 "V102", V103 "V103", V104 "V104", V105 "V105", V106 "V106", V107 "V107", V108 "V108", V109 "V109", V110 "V110", V111 "V111", V112 "V112", V113 "V113", V114 "V114", V115 "V115", V116 "V116", V117 "V117", V118 "V118", V119 "V119", V120 "V120", V121 "V121", V122 "V122", V123 "V123", V124 "V124", V125 "V125", V126 "V126", V127 "V127", V128 "V128" } }
model_enum! { #[derive(Serialize, Deserialize)] E257 { V0 "V0", V1 "V1", V2 "V2", V3 "V3", V4 "V4", V5 "V5", V6 "V6", V7 "V7", V8 "V8", V9 "V9", V10 "V10", V11 "V11", V12 "V12", V13 "V13", V14 "V14", V15 "V15", V16 "V16", V17 "V17", V18 "V18", V19 "V19", V20 "V20", V21 "V21", V22 "V22", V23 "V23", V24 "V24", V25 "V25", V26 "V26", V27 "V27", V28 "V28", V29 "V29", V30 "V30", V31 "V31", V32 "V32", V33 "V33", V34 "V34", V35 "V35", V36 "V36", V37 "V37", V38 "V38", V39 "V39", V40 "V40", V41 "V41", V42 "V42", V43 "V43", V44 "V44", V45 "V45", V46 "V46", V47 "V47", V48 "V48", V49 "V49", V50 "V50", V51 "V51", V52 "V52", V53 "V53", V54 "V54", V55 "V55", V56 "V56", V57 "V57", V58 "V58", V59 "V59", V60 "V60", V61 "V61", V62 "V62", V63 "V63", V64 "V64", V65 "V65", V66 "V66", V67 "V67", V68 "V68", V69 "V69", V70 "V70", V71 "V71", V72 "V72", V73 "V73", V74 "V74", V75 "V75", V76 "V76", V77 "V77", V78 "V78", V79 "V79", V80 "V80", V81 "V81", V82 "V82", V83 "V83", V84 "V84", V85 "V85", V86 "V86", V87 "V87", V88 "V88", V89 "V89", V90 "V90", V91 "V91", V92 "V92", V93 "V93", V94 "V94", V95 "V95", V96 "V96", V97 "V97", V98 "V98", V99 "V99", V100 "V100", V101 "V101", V102 "V102", V103 "V103", V104 "V104", V105 "V105", V106 "V106", V107 "V107", V108 "V108", V109 "V109", V110 "V110", V111 "V111", V112 "V112", V113 "V113", V114 "V114", V115 "V115", V116 "V116", V117 "V117", V118 "V118", V119 "V119", V120 "V120", V121 "V121", V122 "V122", V123 "V123", V124 "V124", V125 "V125", V126 "V126", V127 "V127", V128 "V128", V129 "V129", V130 "V130", V131 "V131", V132 "V132", V133 "V133", V134 "V134", V135 "V135", V136 "V136", V137 "V137", V138 "V138", V139 "V139", V140 "V140", V141 "V141", V142 "V142", V143 "V143", V144 "V144", V145 "V145", V146 "V146", V147 "V147", V148 "V148", V149 "V149", V150 "V150", V151 "V151", V152 "V152", V153 "V153", V154 "V154", V155 "V155", V156 "V156", V157 "V157", V158 "V158", V159 "V159", V160 "V160", V161 "V161", V162 "V162", V163 "V163", V164 "V164", V165 "V165", V166 "V166", V167 "V167", V168 "V168", V169 "V169", V170 "V170", V171 "V171", V172 "V172", V173 "V173", V174 "V174", V175 "V175", V176 "V176", V177 "V177", V178 "V178", V179 "V179", V180 "V180", V181 "V181", V182 "V182", V183 "V183", V184 "V184", V185 "V185", V186 "V186", V187 "V187", V188 "V188", V189 "V189", V190 "V190", V191 "V191", V192 "V192", V193 "V193", V194 "V194", V195 "V195", V196 "V196", V197 "V197", V198 "V198", V199 "V199", V200 "V200", V201 "V201", V202 "V202", V203 "V203", V204 "V204", V205 "V205", V206 "V206", V207 "V207", V208 "V208", V209 "V209", V210 "V210", V211 "V211", V212 "V212", V213 "V213", V214 "V214", V215 "V215", V216 "V216", V217 "V217", V218 "V218", V219 "V219", V220 "V220", V221 "V221", V222 "V222", V223 "V223", V224 "V224", V225 "V225", V226 "V226", V227 "V227", V228 "V228", V229 "V229", V230 "V230", V231 "V231", V232 "V232", V233 "V233", V234 "V234", V235 "V235", V236 "V236", V237 "V237", V238 "V238", V239 "V239", V240 "V240", V241 "V241", V242 "V242", V243 "V243", V244 "V244", V245 "V245", V246 "V246", V247 "V247", V248 "V248", V249 "V249", V250 "V250", V251 "V251", V252 "V252", V253 "V253", V254 "V254", V255 "V255", V256 "V256" } }
model_enum! { #[derive(Serialize, Deserialize)] N2 { #[serde(rename = "V1")] V0 "V1", #[serde(rename = "V0")] V1 "V0" } }
model_enum! { #[derive(Serialize, Deserialize)] N3 { #[serde(rename = "V1")] V0 "V1", #[serde(rename = "V2")] V1 "V2", #[serde(rename = "V0")] V2 "V0" } }
model_enum! { #[derive(Serialize, Deserialize)] N7 { #[serde(rename = "V1")] V0 "V1", #[serde(rename = "V2")] V1 "V2", #[serde(rename = "V3")] V2 "V3", #[serde(rename = "V4")] V3 "V4", #[serde(rename = "V5")] V4 "V5", #[serde(rename = "V6")] V5 "V6", #[serde(rename = "V0")] V6 "V0" } }
model_enum! { #[derive(Serialize, Deserialize)] N40 { #[serde(rename = "V1")] V0 "V1", #[serde(rename = "V2")] V1 "V2", #[serde(rename = "V3")] V2 "V3", #[serde(rename = "V4")] V3 "V4", #[serde(rename = "V5")] V4 "V5", #[serde(rename = "V6")] V5 "V6", #[serde(rename = "V7")] V6 "V7", #[serde(rename = "V8")] V7 "V8", #[serde(rename = "V9")] V8 "V9", #[serde(rename = "V10")] V9 "V10", #[serde(rename = "V11")] V10 "V11", #[serde(rename = "V12")] V11 "V12", #[serde(rename = "V13")] V12 "V13", #[serde(rename = "V14")] V13 "V14", #[serde(rename = "V15")] V14 "V15", #[serde(rename = "V16")] V15 "V16", #[serde(rename = "V17")] V16 "V17", #[serde(rename = "V18")] V17 "V18", #[serde(rename = "V19")] V18 "V19", #[serde(rename = "V20")] V19 "V20", #[serde(rename = "V21")] V20 "V21", #[serde(rename = "V22")] V21 "V22", #[serde(rename = "V23")] V22 "V23", #[serde(rename = "V24")] V23 "V24", #[serde(rename = "V25")] V24 "V25", #[serde(rename = "V26")] V25 "V26", #[serde(rename = "V27")] V26 "V27", #[serde(rename = "V28")] V27 "V28", #[serde(rename = "V29")] V28 "V29", #[serde(rename = "V30")] V29 "V30", #[serde(rename = "V31")] V30 "V31", #[serde(rename = "V32")] V31 "V32", #[serde(rename = "V33")] V32 "V33", #[serde(rename = "V34")] V33 "V34", #[serde(rename = "V35")] V34 "V35", #[serde(rename = "V36")] V35 "V36", #[serde(rename = "V37")] V36 "V37", #[serde(rename = "V38")] V37 "V38", #[serde(rename = "V39")] V38 "V39", #[serde(rename = "V0")] V39 "V0" } }

#[macro_export]
macro_rules! wide_structs { ($m:ident $($a:tt)*) => { $m!($($a)* [$crate::wide::W0] [$crate::wide::W1] [$crate::wide::W2] [$crate::wide::W3] [$crate::wide::W4] [$crate::wide::W5] [$crate::wide::W6] [$crate::wide::W7] [$crate::wide::W8] [$crate::wide::W9] [$crate::wide::W12] [$crate::wide::W16] [$crate::wide::W17] [$crate::wide::W24] [$crate::wide::W32] [$crate::wide::W33] [$crate::wide::W64] [$crate::wide::W65] [$crate::wide::W130] [$crate::wide::W257] [$crate::wide::R2] [$crate::wide::R3] [$crate::wide::R8] [$crate::wide::R40] [$crate::wide::O2] [$crate::wide::O7] [$crate::wide::O33]) } }
#[macro_export]
macro_rules! wide_enums { ($m:ident $($a:tt)*) => { $m!($($a)* [$crate::wide::E1] [$crate::wide::E2] [$crate::wide::E3] [$crate::wide::E4] [$crate::wide::E5] [$crate::wide::E8] [$crate::wide::E16] [$crate::wide::E17] [$crate::wide::E26] [$crate::wide::E64] [$crate::wide::E129] [$crate::wide::E257] [$crate::wide::N2] [$crate::wide::N3] [$crate::wide::N7] [$crate::wide::N40]) } }
