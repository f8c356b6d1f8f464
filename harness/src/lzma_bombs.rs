//! Runs of 'a' in the lzma format, made by xz (the encoder at hand does not compress).
pub static BOMBS: &[(usize, &[u8])] = &[
    (100, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,238,159,7,255,255,255,255,128,0,0,0]),
    (100, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,238,159,7,255,255,255,255,128,0,0,0]),
    (1000, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,176,186,108,170,247,255,255,159,236,0,0]),
    (1000, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,176,186,108,170,247,255,255,159,236,0,0]),
    (5000, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,53,208,144,128,223,255,253,132,16,0]),
    (5000, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,53,208,144,128,223,255,253,132,16,0]),
    (9000, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,84,223,56,200,255,255,241,172,128,0]),
    (9000, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,84,223,56,200,255,255,241,172,128,0]),
    (20000, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,220,125,34,128,237,255,255,251,41,32,0]),
    (20000, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,220,125,34,128,237,255,255,251,41,32,0]),
    (50000, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,191,251,243,57,71,119,255,255,231,206,128,0]),
    (50000, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,191,251,243,57,71,119,255,255,231,206,128,0]),
    (130000, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,192,222,116,73,100,226,233,92,83,178,4,216,247,68,12,171,82,140,242,233,47,127,255,254,116,88,0]),
    (130000, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,192,222,116,73,100,226,233,92,83,178,4,216,247,68,12,171,82,140,242,233,47,127,255,254,116,88,0]),
    (300000, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,192,222,116,73,100,226,233,92,83,178,4,216,247,68,12,171,95,13,109,70,233,229,195,118,136,183,150,87,172,182,77,225,105,29,111,251,75,136,16,108,53,140,79,0,35,255,255,242,200,128,0]),
    (300000, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,192,222,116,73,100,226,233,92,83,178,4,216,247,68,12,171,95,13,109,70,233,229,195,118,136,183,150,87,172,182,77,225,105,29,111,251,75,136,16,108,53,140,79,0,35,255,255,242,200,128,0]),
    (700000, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,192,222,116,73,100,226,233,92,83,178,4,216,247,68,12,171,95,13,109,70,233,229,195,118,136,183,150,87,172,182,77,225,105,29,111,251,75,136,16,108,66,203,136,63,92,0,143,208,78,175,38,40,148,113,31,61,143,36,225,112,158,167,35,95,236,40,203,133,209,149,152,138,126,42,145,242,39,117,247,25,192,6,152,77,152,253,216,175,213,144,15,196,37,83,248,245,144,24,45,61,253,35,255,255,220,134,0,0]),
    (700000, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,192,222,116,73,100,226,233,92,83,178,4,216,247,68,12,171,95,13,109,70,233,229,195,118,136,183,150,87,172,182,77,225,105,29,111,251,75,136,16,108,66,203,136,63,92,0,143,208,78,175,38,40,148,113,31,61,143,36,225,112,158,167,35,95,236,40,203,133,209,149,152,138,126,42,145,242,39,117,247,25,192,6,152,77,152,253,216,175,213,144,15,196,37,83,248,245,144,24,45,61,253,35,255,255,220,134,0,0]),
    (4194304, &[93,0,16,0,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,192,222,116,73,100,226,233,92,83,178,4,216,247,68,12,171,95,13,109,70,233,229,195,118,136,183,150,87,172,182,77,225,105,29,111,251,75,136,16,108,66,203,136,63,92,0,143,208,78,175,38,40,148,113,31,61,143,36,225,112,158,167,35,95,236,40,203,133,209,149,152,138,126,42,145,242,39,117,247,25,192,6,152,77,152,253,216,175,213,144,15,196,37,83,248,245,145,54,49,5,165,176,238,111,193,112,77,71,12,209,145,17,170,173,96,29,186,206,177,39,24,92,89,134,233,102,82,88,190,233,118,172,89,228,229,91,5,8,249,199,218,173,252,251,82,43,116,205,30,91,32,66,249,221,83,61,248,41,100,9,59,128,203,42,108,223,181,59,240,196,189,46,95,170,15,62,75,102,66,144,19,14,255,16,147,248,113,120,89,248,11,205,255,149,40,70,15,169,252,124,222,251,154,48,46,86,192,143,133,243,131,129,192,101,196,37,83,248,245,145,54,49,5,165,176,238,111,193,112,77,71,12,209,145,17,170,173,96,29,186,206,177,39,24,92,89,134,233,102,82,88,190,233,118,172,89,228,229,91,5,8,249,199,218,173,252,251,82,43,116,205,30,91,32,66,249,221,83,61,248,41,100,9,59,128,203,42,108,223,181,59,240,196,189,46,95,170,15,62,75,102,66,144,19,14,255,16,147,248,113,120,89,248,11,205,255,149,40,70,15,169,252,124,222,251,154,48,46,86,192,143,133,243,131,129,192,101,196,37,83,248,245,145,54,49,5,165,176,238,111,193,112,77,71,12,209,145,17,170,173,96,29,186,206,177,39,24,92,89,134,233,102,82,88,190,233,118,172,89,228,229,91,5,8,249,199,218,173,252,251,82,43,116,205,30,91,32,66,249,221,83,61,248,41,100,9,59,128,203,42,108,223,181,59,240,196,189,46,95,170,15,62,75,102,66,144,19,14,255,16,147,248,113,120,89,248,11,205,255,149,40,70,15,169,252,124,222,251,154,48,46,86,192,143,133,243,131,129,192,101,196,37,83,248,245,145,54,49,5,165,176,238,111,193,112,77,71,12,209,145,17,170,173,96,29,186,206,177,39,24,92,89,134,233,102,82,88,190,233,118,172,89,228,229,91,5,8,249,199,218,173,252,251,82,43,116,205,30,91,32,66,249,221,83,61,248,41,100,9,59,128,203,42,108,223,181,59,240,196,189,46,95,170,15,62,75,102,66,144,19,14,255,16,147,248,113,120,89,248,11,205,255,149,40,70,15,169,252,124,222,251,154,48,46,86,192,143,133,243,131,129,192,101,196,37,83,248,245,145,52,38,12,195,246,243,255,255,124,72,0,0]),
    (4194304, &[93,0,0,1,0,255,255,255,255,255,255,255,255,0,48,239,251,191,254,163,177,94,229,248,63,178,170,38,85,248,104,112,65,112,21,15,141,253,30,76,27,138,66,183,25,244,105,24,113,174,102,35,138,138,77,47,163,13,217,127,166,227,140,35,17,83,224,89,24,197,117,138,226,119,248,182,148,127,12,106,192,222,116,73,100,226,233,92,83,178,4,216,247,68,12,171,95,13,109,70,233,229,195,118,136,183,150,87,172,182,77,225,105,29,111,251,75,136,16,108,66,203,136,63,92,0,143,208,78,175,38,40,148,113,31,61,143,36,225,112,158,167,35,95,236,40,203,133,209,149,152,138,126,42,145,242,39,117,247,25,192,6,152,77,152,253,216,175,213,144,15,196,37,83,248,245,145,54,49,5,165,176,238,111,193,112,77,71,12,209,145,17,170,173,96,29,186,206,177,39,24,92,89,134,233,102,82,88,190,233,118,172,89,228,229,91,5,8,249,199,218,173,252,251,82,43,116,205,30,91,32,66,249,221,83,61,248,41,100,9,59,128,203,42,108,223,181,59,240,196,189,46,95,170,15,62,75,102,66,144,19,14,255,16,147,248,113,120,89,248,11,205,255,149,40,70,15,169,252,124,222,251,154,48,46,86,192,143,133,243,131,129,192,101,196,37,83,248,245,145,54,49,5,165,176,238,111,193,112,77,71,12,209,145,17,170,173,96,29,186,206,177,39,24,92,89,134,233,102,82,88,190,233,118,172,89,228,229,91,5,8,249,199,218,173,252,251,82,43,116,205,30,91,32,66,249,221,83,61,248,41,100,9,59,128,203,42,108,223,181,59,240,196,189,46,95,170,15,62,75,102,66,144,19,14,255,16,147,248,113,120,89,248,11,205,255,149,40,70,15,169,252,124,222,251,154,48,46,86,192,143,133,243,131,129,192,101,196,37,83,248,245,145,54,49,5,165,176,238,111,193,112,77,71,12,209,145,17,170,173,96,29,186,206,177,39,24,92,89,134,233,102,82,88,190,233,118,172,89,228,229,91,5,8,249,199,218,173,252,251,82,43,116,205,30,91,32,66,249,221,83,61,248,41,100,9,59,128,203,42,108,223,181,59,240,196,189,46,95,170,15,62,75,102,66,144,19,14,255,16,147,248,113,120,89,248,11,205,255,149,40,70,15,169,252,124,222,251,154,48,46,86,192,143,133,243,131,129,192,101,196,37,83,248,245,145,54,49,5,165,176,238,111,193,112,77,71,12,209,145,17,170,173,96,29,186,206,177,39,24,92,89,134,233,102,82,88,190,233,118,172,89,228,229,91,5,8,249,199,218,173,252,251,82,43,116,205,30,91,32,66,249,221,83,61,248,41,100,9,59,128,203,42,108,223,181,59,240,196,189,46,95,170,15,62,75,102,66,144,19,14,255,16,147,248,113,120,89,248,11,205,255,149,40,70,15,169,252,124,222,251,154,48,46,86,192,143,133,243,131,129,192,101,196,37,83,248,245,145,52,38,12,195,246,243,255,255,124,72,0,0]),
];
