//! Generated by tools/mktables.py: reference code tables (bytes 128..255) and national sets.

pub fn high(table: u8) -> &'static [&'static str; 128] {
    match table {
        1 => &T1,
        2 => &T2,
        3 => &T3,
        4 => &T4,
        5 => &T5,
        11 => &T11,
        12 => &T12,
        13 => &T13,
        _ => &T0,
    }
}

pub fn national(set: u8) -> &'static [(u8, char)] {
    match set {
        1 => &[(0x40, '\u{E0}'), (0x5B, '\u{B0}'), (0x5C, '\u{E7}'), (0x5D, '\u{A7}'), (0x7B, '\u{E9}'), (0x7C, '\u{F9}'), (0x7D, '\u{E8}'), (0x7E, '\u{A8}')],
        2 => &[(0x40, '\u{A7}'), (0x5B, '\u{C4}'), (0x5C, '\u{D6}'), (0x5D, '\u{DC}'), (0x7B, '\u{E4}'), (0x7C, '\u{F6}'), (0x7D, '\u{FC}'), (0x7E, '\u{DF}')],
        3 => &[(0x23, '\u{A3}')],
        4 => &[(0x5B, '\u{C6}'), (0x5C, '\u{D8}'), (0x5D, '\u{C5}'), (0x7B, '\u{E6}'), (0x7C, '\u{F8}'), (0x7D, '\u{E5}')],
        5 => &[(0x24, '\u{A4}'), (0x40, '\u{C9}'), (0x5B, '\u{C4}'), (0x5C, '\u{D6}'), (0x5D, '\u{C5}'), (0x5E, '\u{DC}'), (0x60, '\u{E9}'), (0x7B, '\u{E4}'), (0x7C, '\u{F6}'), (0x7D, '\u{E5}'), (0x7E, '\u{FC}')],
        6 => &[(0x5B, '\u{B0}'), (0x5D, '\u{E9}'), (0x60, '\u{F9}'), (0x7B, '\u{E0}'), (0x7C, '\u{F2}'), (0x7D, '\u{E8}'), (0x7E, '\u{EC}')],
        7 => &[(0x23, '\u{20A7}'), (0x5B, '\u{A1}'), (0x5C, '\u{D1}'), (0x5D, '\u{BF}'), (0x7B, '\u{A8}'), (0x7C, '\u{F1}')],
        8 => &[(0x5C, '\u{A5}')],
        9 => &[(0x24, '\u{A4}'), (0x40, '\u{C9}'), (0x5B, '\u{C6}'), (0x5C, '\u{D8}'), (0x5D, '\u{C5}'), (0x5E, '\u{DC}'), (0x60, '\u{E9}'), (0x7B, '\u{E6}'), (0x7C, '\u{F8}'), (0x7D, '\u{E5}'), (0x7E, '\u{FC}')],
        10 => &[(0x40, '\u{C9}'), (0x5B, '\u{C6}'), (0x5C, '\u{D8}'), (0x5D, '\u{C5}'), (0x5E, '\u{DC}'), (0x60, '\u{E9}'), (0x7B, '\u{E6}'), (0x7C, '\u{F8}'), (0x7D, '\u{E5}'), (0x7E, '\u{FC}')],
        11 => &[(0x40, '\u{E1}'), (0x5B, '\u{A1}'), (0x5C, '\u{D1}'), (0x5D, '\u{BF}'), (0x5E, '\u{E9}'), (0x7B, '\u{ED}'), (0x7C, '\u{F1}'), (0x7D, '\u{F3}'), (0x7E, '\u{FA}')],
        12 => &[(0x40, '\u{E1}'), (0x5B, '\u{A1}'), (0x5C, '\u{D1}'), (0x5D, '\u{BF}'), (0x5E, '\u{E9}'), (0x60, '\u{FC}'), (0x7B, '\u{ED}'), (0x7C, '\u{F1}'), (0x7D, '\u{F3}'), (0x7E, '\u{FA}')],
        13 => &[(0x5C, '\u{20A9}')],
        14 => &[(0x40, '\u{17D}'), (0x5B, '\u{160}'), (0x5C, '\u{110}'), (0x5D, '\u{10C}'), (0x5E, '\u{106}'), (0x60, '\u{17E}'), (0x7B, '\u{161}'), (0x7C, '\u{111}'), (0x7D, '\u{10D}'), (0x7E, '\u{107}')],
        15 => &[(0x24, '\u{A5}')],
        16 => &[(0x23, '\u{111}')],
        17 => &[(0x2A, '\u{66D}')],
        66 => &[(0x30, '\u{966}'), (0x31, '\u{967}'), (0x32, '\u{968}'), (0x33, '\u{969}'), (0x34, '\u{96A}'), (0x35, '\u{96B}'), (0x36, '\u{96C}'), (0x37, '\u{96D}'), (0x38, '\u{96E}'), (0x39, '\u{96F}')],
        67 => &[(0x30, '\u{9E6}'), (0x31, '\u{9E7}'), (0x32, '\u{9E8}'), (0x33, '\u{9E9}'), (0x34, '\u{9EA}'), (0x35, '\u{9EB}'), (0x36, '\u{9EC}'), (0x37, '\u{9ED}'), (0x38, '\u{9EE}'), (0x39, '\u{9EF}')],
        68 => &[(0x30, '\u{BE6}'), (0x31, '\u{BE7}'), (0x32, '\u{BE8}'), (0x33, '\u{BE9}'), (0x34, '\u{BEA}'), (0x35, '\u{BEB}'), (0x36, '\u{BEC}'), (0x37, '\u{BED}'), (0x38, '\u{BEE}'), (0x39, '\u{BEF}')],
        69 => &[(0x30, '\u{C66}'), (0x31, '\u{C67}'), (0x32, '\u{C68}'), (0x33, '\u{C69}'), (0x34, '\u{C6A}'), (0x35, '\u{C6B}'), (0x36, '\u{C6C}'), (0x37, '\u{C6D}'), (0x38, '\u{C6E}'), (0x39, '\u{C6F}')],
        70 => &[(0x30, '\u{9E6}'), (0x31, '\u{9E7}'), (0x32, '\u{9E8}'), (0x33, '\u{9E9}'), (0x34, '\u{9EA}'), (0x35, '\u{9EB}'), (0x36, '\u{9EC}'), (0x37, '\u{9ED}'), (0x38, '\u{9EE}'), (0x39, '\u{9EF}')],
        71 => &[(0x30, '\u{B66}'), (0x31, '\u{B67}'), (0x32, '\u{B68}'), (0x33, '\u{B69}'), (0x34, '\u{B6A}'), (0x35, '\u{B6B}'), (0x36, '\u{B6C}'), (0x37, '\u{B6D}'), (0x38, '\u{B6E}'), (0x39, '\u{B6F}')],
        72 => &[(0x30, '\u{CE6}'), (0x31, '\u{CE7}'), (0x32, '\u{CE8}'), (0x33, '\u{CE9}'), (0x34, '\u{CEA}'), (0x35, '\u{CEB}'), (0x36, '\u{CEC}'), (0x37, '\u{CED}'), (0x38, '\u{CEE}'), (0x39, '\u{CEF}')],
        73 => &[(0x30, '\u{D66}'), (0x31, '\u{D67}'), (0x32, '\u{D68}'), (0x33, '\u{D69}'), (0x34, '\u{D6A}'), (0x35, '\u{D6B}'), (0x36, '\u{D6C}'), (0x37, '\u{D6D}'), (0x38, '\u{D6E}'), (0x39, '\u{D6F}')],
        74 => &[(0x30, '\u{AE6}'), (0x31, '\u{AE7}'), (0x32, '\u{AE8}'), (0x33, '\u{AE9}'), (0x34, '\u{AEA}'), (0x35, '\u{AEB}'), (0x36, '\u{AEC}'), (0x37, '\u{AED}'), (0x38, '\u{AEE}'), (0x39, '\u{AEF}')],
        75 => &[(0x30, '\u{A66}'), (0x31, '\u{A67}'), (0x32, '\u{A68}'), (0x33, '\u{A69}'), (0x34, '\u{A6A}'), (0x35, '\u{A6B}'), (0x36, '\u{A6C}'), (0x37, '\u{A6D}'), (0x38, '\u{A6E}'), (0x39, '\u{A6F}')],
        82 => &[(0x30, '\u{966}'), (0x31, '\u{967}'), (0x32, '\u{968}'), (0x33, '\u{969}'), (0x34, '\u{96A}'), (0x35, '\u{96B}'), (0x36, '\u{96C}'), (0x37, '\u{96D}'), (0x38, '\u{96E}'), (0x39, '\u{96F}')],
        _ => &[],
    }
}

pub const TABLES: &[u8] = &[0, 1, 2, 3, 4, 5, 11, 12, 13];
pub const SETS: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 82];

static T0: [&str; 128] = [
    "\u{C7}", "\u{FC}", "\u{E9}", "\u{E2}", "\u{E4}", "\u{E0}", "\u{E5}", "\u{E7}",
    "\u{EA}", "\u{EB}", "\u{E8}", "\u{EF}", "\u{EE}", "\u{EC}", "\u{C4}", "\u{C5}",
    "\u{C9}", "\u{E6}", "\u{C6}", "\u{F4}", "\u{F6}", "\u{F2}", "\u{FB}", "\u{F9}",
    "\u{FF}", "\u{D6}", "\u{DC}", "\u{A2}", "\u{A3}", "\u{A5}", "\u{20A7}", "\u{192}",
    "\u{E1}", "\u{ED}", "\u{F3}", "\u{FA}", "\u{F1}", "\u{D1}", "\u{AA}", "\u{BA}",
    "\u{BF}", "\u{2310}", "\u{AC}", "\u{BD}", "\u{BC}", "\u{A1}", "\u{AB}", "\u{BB}",
    "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{2561}", "\u{2562}", "\u{2556}",
    "\u{2555}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255D}", "\u{255C}", "\u{255B}", "\u{2510}",
    "\u{2514}", "\u{2534}", "\u{252C}", "\u{251C}", "\u{2500}", "\u{253C}", "\u{255E}", "\u{255F}",
    "\u{255A}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256C}", "\u{2567}",
    "\u{2568}", "\u{2564}", "\u{2565}", "\u{2559}", "\u{2558}", "\u{2552}", "\u{2553}", "\u{256B}",
    "\u{256A}", "\u{2518}", "\u{250C}", "\u{2588}", "\u{2584}", "\u{258C}", "\u{2590}", "\u{2580}",
    "\u{3B1}", "\u{DF}", "\u{393}", "\u{3C0}", "\u{3A3}", "\u{3C3}", "\u{B5}", "\u{3C4}",
    "\u{3A6}", "\u{398}", "\u{3A9}", "\u{3B4}", "\u{221E}", "\u{3C6}", "\u{3B5}", "\u{2229}",
    "\u{2261}", "\u{B1}", "\u{2265}", "\u{2264}", "\u{2320}", "\u{2321}", "\u{F7}", "\u{2248}",
    "\u{B0}", "\u{2219}", "\u{B7}", "\u{221A}", "\u{207F}", "\u{B2}", "\u{25A0}", "\u{A0}",
];
static T1: [&str; 128] = [
    "\u{2581}", "\u{2582}", "\u{2583}", "\u{2584}", "\u{2585}", "\u{2586}", "\u{2587}", "\u{2588}",
    "\u{258F}", "\u{258E}", "\u{258D}", "\u{258C}", "\u{258B}", "\u{258A}", "\u{2589}", "\u{253C}",
    "\u{2534}", "\u{252C}", "\u{2524}", "\u{251C}", "\u{AF}", "\u{2500}", "\u{2502}", "\u{2595}",
    "\u{250C}", "\u{2510}", "\u{2514}", "\u{2518}", "\u{256D}", "\u{256E}", "\u{2570}", "\u{256F}",
    "\u{20}", "\u{FF61}", "\u{FF62}", "\u{FF63}", "\u{FF64}", "\u{FF65}", "\u{FF66}", "\u{FF67}",
    "\u{FF68}", "\u{FF69}", "\u{FF6A}", "\u{FF6B}", "\u{FF6C}", "\u{FF6D}", "\u{FF6E}", "\u{FF6F}",
    "\u{FF70}", "\u{FF71}", "\u{FF72}", "\u{FF73}", "\u{FF74}", "\u{FF75}", "\u{FF76}", "\u{FF77}",
    "\u{FF78}", "\u{FF79}", "\u{FF7A}", "\u{FF7B}", "\u{FF7C}", "\u{FF7D}", "\u{FF7E}", "\u{FF7F}",
    "\u{FF80}", "\u{FF81}", "\u{FF82}", "\u{FF83}", "\u{FF84}", "\u{FF85}", "\u{FF86}", "\u{FF87}",
    "\u{FF88}", "\u{FF89}", "\u{FF8A}", "\u{FF8B}", "\u{FF8C}", "\u{FF8D}", "\u{FF8E}", "\u{FF8F}",
    "\u{FF90}", "\u{FF91}", "\u{FF92}", "\u{FF93}", "\u{FF94}", "\u{FF95}", "\u{FF96}", "\u{FF97}",
    "\u{FF98}", "\u{FF99}", "\u{FF9A}", "\u{FF9B}", "\u{FF9C}", "\u{FF9D}", "\u{FF9E}", "\u{FF9F}",
    "\u{2550}", "\u{255E}", "\u{256A}", "\u{2561}", "\u{25E2}", "\u{25E3}", "\u{25E5}", "\u{25E4}",
    "\u{2660}", "\u{2665}", "\u{2666}", "\u{2663}", "\u{25CF}", "\u{25CB}", "\u{2571}", "\u{2572}",
    "\u{2573}", "\u{5186}", "\u{5E74}", "\u{6708}", "\u{65E5}", "\u{6642}", "\u{5206}", "\u{79D2}",
    "\u{3012}", "\u{5E02}", "\u{533A}", "\u{753A}", "\u{6751}", "\u{4EBA}", "\u{2593}", "\u{A0}",
];
static T2: [&str; 128] = [
    "\u{C7}", "\u{FC}", "\u{E9}", "\u{E2}", "\u{E4}", "\u{E0}", "\u{E5}", "\u{E7}",
    "\u{EA}", "\u{EB}", "\u{E8}", "\u{EF}", "\u{EE}", "\u{EC}", "\u{C4}", "\u{C5}",
    "\u{C9}", "\u{E6}", "\u{C6}", "\u{F4}", "\u{F6}", "\u{F2}", "\u{FB}", "\u{F9}",
    "\u{FF}", "\u{D6}", "\u{DC}", "\u{F8}", "\u{A3}", "\u{D8}", "\u{D7}", "\u{192}",
    "\u{E1}", "\u{ED}", "\u{F3}", "\u{FA}", "\u{F1}", "\u{D1}", "\u{AA}", "\u{BA}",
    "\u{BF}", "\u{AE}", "\u{AC}", "\u{BD}", "\u{BC}", "\u{A1}", "\u{AB}", "\u{BB}",
    "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{C1}", "\u{C2}", "\u{C0}",
    "\u{A9}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255D}", "\u{A2}", "\u{A5}", "\u{2510}",
    "\u{2514}", "\u{2534}", "\u{252C}", "\u{251C}", "\u{2500}", "\u{253C}", "\u{E3}", "\u{C3}",
    "\u{255A}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256C}", "\u{A4}",
    "\u{F0}", "\u{D0}", "\u{CA}", "\u{CB}", "\u{C8}", "\u{131}", "\u{CD}", "\u{CE}",
    "\u{CF}", "\u{2518}", "\u{250C}", "\u{2588}", "\u{2584}", "\u{A6}", "\u{CC}", "\u{2580}",
    "\u{D3}", "\u{DF}", "\u{D4}", "\u{D2}", "\u{F5}", "\u{D5}", "\u{B5}", "\u{FE}",
    "\u{DE}", "\u{DA}", "\u{DB}", "\u{D9}", "\u{FD}", "\u{DD}", "\u{AF}", "\u{B4}",
    "\u{2D}", "\u{B1}", "\u{2017}", "\u{BE}", "\u{B6}", "\u{A7}", "\u{F7}", "\u{B8}",
    "\u{B0}", "\u{A8}", "\u{B7}", "\u{B9}", "\u{B3}", "\u{B2}", "\u{25A0}", "\u{A0}",
];
static T3: [&str; 128] = [
    "\u{C7}", "\u{FC}", "\u{E9}", "\u{E2}", "\u{E3}", "\u{E0}", "\u{C1}", "\u{E7}",
    "\u{EA}", "\u{CA}", "\u{E8}", "\u{CD}", "\u{D4}", "\u{EC}", "\u{C3}", "\u{C2}",
    "\u{C9}", "\u{C0}", "\u{C8}", "\u{F4}", "\u{F5}", "\u{F2}", "\u{DA}", "\u{F9}",
    "\u{CC}", "\u{D5}", "\u{DC}", "\u{A2}", "\u{A3}", "\u{D9}", "\u{20A7}", "\u{D3}",
    "\u{E1}", "\u{ED}", "\u{F3}", "\u{FA}", "\u{F1}", "\u{D1}", "\u{AA}", "\u{BA}",
    "\u{BF}", "\u{D2}", "\u{AC}", "\u{BD}", "\u{BC}", "\u{A1}", "\u{AB}", "\u{BB}",
    "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{2561}", "\u{2562}", "\u{2556}",
    "\u{2555}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255D}", "\u{255C}", "\u{255B}", "\u{2510}",
    "\u{2514}", "\u{2534}", "\u{252C}", "\u{251C}", "\u{2500}", "\u{253C}", "\u{255E}", "\u{255F}",
    "\u{255A}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256C}", "\u{2567}",
    "\u{2568}", "\u{2564}", "\u{2565}", "\u{2559}", "\u{2558}", "\u{2552}", "\u{2553}", "\u{256B}",
    "\u{256A}", "\u{2518}", "\u{250C}", "\u{2588}", "\u{2584}", "\u{258C}", "\u{2590}", "\u{2580}",
    "\u{3B1}", "\u{DF}", "\u{393}", "\u{3C0}", "\u{3A3}", "\u{3C3}", "\u{B5}", "\u{3C4}",
    "\u{3A6}", "\u{398}", "\u{3A9}", "\u{3B4}", "\u{221E}", "\u{3C6}", "\u{3B5}", "\u{2229}",
    "\u{2261}", "\u{B1}", "\u{2265}", "\u{2264}", "\u{2320}", "\u{2321}", "\u{F7}", "\u{2248}",
    "\u{B0}", "\u{2219}", "\u{B7}", "\u{221A}", "\u{207F}", "\u{B2}", "\u{25A0}", "\u{A0}",
];
static T4: [&str; 128] = [
    "\u{C7}", "\u{FC}", "\u{E9}", "\u{E2}", "\u{C2}", "\u{E0}", "\u{B6}", "\u{E7}",
    "\u{EA}", "\u{EB}", "\u{E8}", "\u{EF}", "\u{EE}", "\u{2017}", "\u{C0}", "\u{A7}",
    "\u{C9}", "\u{C8}", "\u{CA}", "\u{F4}", "\u{CB}", "\u{CF}", "\u{FB}", "\u{F9}",
    "\u{A4}", "\u{D4}", "\u{DC}", "\u{A2}", "\u{A3}", "\u{D9}", "\u{DB}", "\u{192}",
    "\u{A6}", "\u{B4}", "\u{F3}", "\u{FA}", "\u{A8}", "\u{B8}", "\u{B3}", "\u{AF}",
    "\u{CE}", "\u{2310}", "\u{AC}", "\u{BD}", "\u{BC}", "\u{BE}", "\u{AB}", "\u{BB}",
    "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{2561}", "\u{2562}", "\u{2556}",
    "\u{2555}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255D}", "\u{255C}", "\u{255B}", "\u{2510}",
    "\u{2514}", "\u{2534}", "\u{252C}", "\u{251C}", "\u{2500}", "\u{253C}", "\u{255E}", "\u{255F}",
    "\u{255A}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256C}", "\u{2567}",
    "\u{2568}", "\u{2564}", "\u{2565}", "\u{2559}", "\u{2558}", "\u{2552}", "\u{2553}", "\u{256B}",
    "\u{256A}", "\u{2518}", "\u{250C}", "\u{2588}", "\u{2584}", "\u{258C}", "\u{2590}", "\u{2580}",
    "\u{3B1}", "\u{DF}", "\u{393}", "\u{3C0}", "\u{3A3}", "\u{3C3}", "\u{B5}", "\u{3C4}",
    "\u{3A6}", "\u{398}", "\u{3A9}", "\u{3B4}", "\u{221E}", "\u{3C6}", "\u{3B5}", "\u{2229}",
    "\u{2261}", "\u{B1}", "\u{2265}", "\u{2264}", "\u{2320}", "\u{2321}", "\u{F7}", "\u{2248}",
    "\u{B0}", "\u{2219}", "\u{B7}", "\u{221A}", "\u{207F}", "\u{B2}", "\u{25A0}", "\u{A0}",
];
static T5: [&str; 128] = [
    "\u{C7}", "\u{FC}", "\u{E9}", "\u{E2}", "\u{E4}", "\u{E0}", "\u{E5}", "\u{E7}",
    "\u{EA}", "\u{EB}", "\u{E8}", "\u{EF}", "\u{EE}", "\u{EC}", "\u{C4}", "\u{C5}",
    "\u{C9}", "\u{E6}", "\u{C6}", "\u{F4}", "\u{F6}", "\u{F2}", "\u{FB}", "\u{F9}",
    "\u{FF}", "\u{D6}", "\u{DC}", "\u{F8}", "\u{A3}", "\u{D8}", "\u{20A7}", "\u{192}",
    "\u{E1}", "\u{ED}", "\u{F3}", "\u{FA}", "\u{F1}", "\u{D1}", "\u{AA}", "\u{BA}",
    "\u{BF}", "\u{2310}", "\u{AC}", "\u{BD}", "\u{BC}", "\u{A1}", "\u{AB}", "\u{A4}",
    "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{2561}", "\u{2562}", "\u{2556}",
    "\u{2555}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255D}", "\u{255C}", "\u{255B}", "\u{2510}",
    "\u{2514}", "\u{2534}", "\u{252C}", "\u{251C}", "\u{2500}", "\u{253C}", "\u{255E}", "\u{255F}",
    "\u{255A}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256C}", "\u{2567}",
    "\u{2568}", "\u{2564}", "\u{2565}", "\u{2559}", "\u{2558}", "\u{2552}", "\u{2553}", "\u{256B}",
    "\u{256A}", "\u{2518}", "\u{250C}", "\u{2588}", "\u{2584}", "\u{258C}", "\u{2590}", "\u{2580}",
    "\u{3B1}", "\u{DF}", "\u{393}", "\u{3C0}", "\u{3A3}", "\u{3C3}", "\u{B5}", "\u{3C4}",
    "\u{3A6}", "\u{398}", "\u{3A9}", "\u{3B4}", "\u{221E}", "\u{3C6}", "\u{3B5}", "\u{2229}",
    "\u{2261}", "\u{B1}", "\u{2265}", "\u{2264}", "\u{2320}", "\u{2321}", "\u{F7}", "\u{2248}",
    "\u{B0}", "\u{2219}", "\u{B7}", "\u{221A}", "\u{207F}", "\u{B2}", "\u{25A0}", "\u{A0}",
];
static T11: [&str; 128] = [
    "\u{C7}", "\u{FC}", "\u{E9}", "\u{E2}", "\u{E4}", "\u{E0}", "\u{386}", "\u{E7}",
    "\u{EA}", "\u{EB}", "\u{E8}", "\u{EF}", "\u{EE}", "\u{388}", "\u{C4}", "\u{389}",
    "\u{38A}", "", "\u{38C}", "\u{F4}", "\u{F6}", "\u{38E}", "\u{FB}", "\u{F9}",
    "\u{38F}", "\u{D6}", "\u{DC}", "\u{3AC}", "\u{A3}", "\u{3AD}", "\u{3AE}", "\u{3AF}",
    "\u{3CA}", "\u{390}", "\u{3CC}", "\u{3CD}", "\u{391}", "\u{392}", "\u{393}", "\u{394}",
    "\u{395}", "\u{396}", "\u{397}", "\u{BD}", "\u{398}", "\u{399}", "\u{AB}", "\u{BB}",
    "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{39A}", "\u{39B}", "\u{39C}",
    "\u{39D}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255D}", "\u{39E}", "\u{39F}", "\u{2510}",
    "\u{2514}", "\u{2534}", "\u{252C}", "\u{251C}", "\u{2500}", "\u{253C}", "\u{3A0}", "\u{3A1}",
    "\u{255A}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256C}", "\u{3A3}",
    "\u{3A4}", "\u{3A5}", "\u{3A6}", "\u{3A7}", "\u{3A8}", "\u{3A9}", "\u{3B1}", "\u{3B2}",
    "\u{3B3}", "\u{2518}", "\u{250C}", "\u{2588}", "\u{2584}", "\u{3B4}", "\u{3B5}", "\u{2580}",
    "\u{3B6}", "\u{3B7}", "\u{3B8}", "\u{3B9}", "\u{3BA}", "\u{3BB}", "\u{3BC}", "\u{3BD}",
    "\u{3BE}", "\u{3BF}", "\u{3C0}", "\u{3C1}", "\u{3C3}", "\u{3C2}", "\u{3C4}", "\u{B4}",
    "\u{AD}", "\u{B1}", "\u{3C5}", "\u{3C6}", "\u{3C7}", "\u{A7}", "\u{3C8}", "\u{B8}",
    "\u{B0}", "\u{A8}", "\u{3C9}", "\u{3CB}", "\u{3B0}", "\u{3CE}", "\u{25A0}", "\u{A0}",
];
static T12: [&str; 128] = [
    "\u{C7}", "\u{FC}", "\u{E9}", "\u{E2}", "\u{E4}", "\u{E0}", "\u{109}", "\u{E7}",
    "\u{EA}", "\u{EB}", "\u{E8}", "\u{EF}", "\u{EE}", "\u{EC}", "\u{C4}", "\u{108}",
    "\u{C9}", "\u{10B}", "\u{10A}", "\u{F4}", "\u{F6}", "\u{F2}", "\u{FB}", "\u{F9}",
    "\u{130}", "\u{D6}", "\u{DC}", "\u{11D}", "\u{A3}", "\u{11C}", "\u{D7}", "\u{135}",
    "\u{E1}", "\u{ED}", "\u{F3}", "\u{FA}", "\u{F1}", "\u{D1}", "\u{11E}", "\u{11F}",
    "\u{124}", "\u{125}", "", "\u{BD}", "\u{134}", "\u{15F}", "\u{AB}", "\u{BB}",
    "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{C1}", "\u{C2}", "\u{C0}",
    "\u{15E}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255D}", "\u{17B}", "\u{17C}", "\u{2510}",
    "\u{2514}", "\u{2534}", "\u{252C}", "\u{251C}", "\u{2500}", "\u{253C}", "\u{15C}", "\u{15D}",
    "\u{255A}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256C}", "\u{A4}",
    "", "", "\u{CA}", "\u{CB}", "\u{C8}", "\u{131}", "\u{CD}", "\u{CE}",
    "\u{CF}", "\u{2518}", "\u{250C}", "\u{2588}", "\u{2584}", "", "\u{CC}", "\u{2580}",
    "\u{D3}", "\u{DF}", "\u{D4}", "\u{D2}", "\u{120}", "\u{121}", "\u{B5}", "\u{126}",
    "\u{127}", "\u{DA}", "\u{DB}", "\u{D9}", "\u{16C}", "\u{16D}", "\u{B7}", "\u{B4}",
    "\u{AD}", "", "\u{2113}", "\u{149}", "\u{2D8}", "\u{A7}", "\u{F7}", "\u{B8}",
    "\u{B0}", "\u{A8}", "\u{2D9}", "", "\u{B3}", "\u{B2}", "\u{25A0}", "\u{A0}",
];
static T13: [&str; 128] = [
    "\u{C7}", "\u{FC}", "\u{E9}", "\u{E2}", "\u{E4}", "\u{E0}", "\u{E5}", "\u{E7}",
    "\u{EA}", "\u{EB}", "\u{E8}", "\u{EF}", "\u{EE}", "\u{131}", "\u{C4}", "\u{C5}",
    "\u{C9}", "\u{E6}", "\u{C6}", "\u{F4}", "\u{F6}", "\u{F2}", "\u{FB}", "\u{F9}",
    "\u{130}", "\u{D6}", "\u{DC}", "\u{F8}", "\u{A3}", "\u{D8}", "\u{15E}", "\u{15F}",
    "\u{E1}", "\u{ED}", "\u{F3}", "\u{FA}", "\u{F1}", "\u{D1}", "\u{11E}", "\u{11F}",
    "\u{BF}", "\u{AE}", "\u{AC}", "\u{BD}", "\u{BC}", "\u{A1}", "\u{AB}", "\u{BB}",
    "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{C1}", "\u{C2}", "\u{C0}",
    "\u{A9}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255D}", "\u{A2}", "\u{A5}", "\u{2510}",
    "\u{2514}", "\u{2534}", "\u{252C}", "\u{251C}", "\u{2500}", "\u{253C}", "\u{E3}", "\u{C3}",
    "\u{255A}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256C}", "\u{A4}",
    "\u{BA}", "\u{AA}", "\u{CA}", "\u{CB}", "\u{C8}", "\u{20AC}", "\u{CD}", "\u{CE}",
    "\u{CF}", "\u{2518}", "\u{250C}", "\u{2588}", "\u{2584}", "\u{A6}", "\u{CC}", "\u{2580}",
    "\u{D3}", "\u{DF}", "\u{D4}", "\u{D2}", "\u{F5}", "\u{D5}", "\u{B5}", "",
    "\u{D7}", "\u{DA}", "\u{DB}", "\u{D9}", "\u{EC}", "\u{FF}", "\u{AF}", "\u{B4}",
    "\u{AD}", "\u{B1}", "", "\u{BE}", "\u{B6}", "\u{A7}", "\u{F7}", "\u{B8}",
    "\u{B0}", "\u{A8}", "\u{B7}", "\u{B9}", "\u{B3}", "\u{B2}", "\u{25A0}", "\u{A0}",
];
