// Generated by tools/gen_zoo.py; do not edit.
use super::*;

#[derive(EnumSetType)]
pub enum Empty {  }
variant_empty!(Empty [] {  });

#[derive(EnumSetType)]
pub enum D1 { V0 }
variant!(D1 [V0] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D2 { V0, V1 }
variant!(D2 [V0, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D3 { V0, V1, V2 }
variant!(D3 [V0, V1, V2] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D7 { V0, V1, V2, V3, V4, V5, V6 }
variant!(D7 [V0, V1, V2, V3, V4, V5, V6] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D8 { V0, V1, V2, V3, V4, V5, V6, V7 }
variant!(D8 [V0, V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
variant!(D9 [V0, V1, V2, V3, V4, V5, V6, V7, V8] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D15 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14 }
variant!(D15 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
variant!(D16 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
variant!(D17 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D24 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23 }
variant!(D24 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }
variant!(D31 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
variant!(D32 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
variant!(D33 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D48 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47 }
variant!(D48 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }
variant!(D63 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
variant!(D64 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
variant!(D65 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D100 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99 }
variant!(D100 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126 }
variant!(D127 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
variant!(D128 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D129 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128 }
variant!(D129 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D160 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159 }
variant!(D160 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D192 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191 }
variant!(D192 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D193 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192 }
variant!(D193 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D256 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 }
variant!(D256 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D257 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256 }
variant!(D257 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum D300 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299 }
variant!(D300 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One5 { V5 = 5 }
variant!(One5 [V5] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One7 { V7 = 7 }
variant!(One7 [V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One8 { V8 = 8 }
variant!(One8 [V8] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One15 { V15 = 15 }
variant!(One15 [V15] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One31 { V31 = 31 }
variant!(One31 [V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One32 { V32 = 32 }
variant!(One32 [V32] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One62 { V62 = 62 }
variant!(One62 [V62] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One63 { V63 = 63 }
variant!(One63 [V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One64 { V64 = 64 }
variant!(One64 [V64] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One127 { V127 = 127 }
variant!(One127 [V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One128 { V128 = 128 }
variant!(One128 [V128] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum One200 { V200 = 200 }
variant!(One200 [V200] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp7 { V0, V7 = 7 }
variant!(Sp7 [V0, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp8 { V0, V8 = 8 }
variant!(Sp8 [V0, V8] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp16 { V3 = 3, V15 = 15, V16 }
variant!(Sp16 [V3, V15, V16] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp32 { V0, V1, V30 = 30, V31 }
variant!(Sp32 [V0, V1, V30, V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp33 { V2 = 2, V31 = 31, V32 }
variant!(Sp33 [V2, V31, V32] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp63 { V0, V63 = 63 }
variant!(Sp63 [V0, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp64 { V0, V64 = 64 }
variant!(Sp64 [V0, V64] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp65 { V63 = 63, V64 }
variant!(Sp65 [V63, V64] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SpHi { V64 = 64, V65, V66, V100 = 100, V127 = 127 }
variant!(SpHi [V64, V65, V66, V100, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp127 { V10 = 10, V20 = 20, V30 = 30, V127 = 127 }
variant!(Sp127 [V10, V20, V30, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp128 { V0, V1, V2, V128 = 128 }
variant!(Sp128 [V0, V1, V2, V128] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SpEdge { V0, V1, V62 = 62, V63, V64, V65, V126 = 126, V127, V128, V129, V190 = 190, V191, V192, V193, V254 = 254, V255, V256 }
variant!(SpEdge [V0, V1, V62, V63, V64, V65, V126, V127, V128, V129, V190, V191, V192, V193, V254, V255, V256] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SpGiant { V100 = 100, V200 = 200, V300 = 300, V400 = 400, V500 = 500, V600 = 600, V700 = 700, V800 = 800 }
variant!(SpGiant [V100, V200, V300, V400, V500, V600, V700, V800] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SpGap { V5 = 5, V700 = 700, V701, V703 = 703, V704, V1000 = 1000 }
variant!(SpGap [V5, V700, V701, V703, V704, V1000] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Sp4095 { V0, V63 = 63, V2048 = 2048, V4095 = 4095 }
variant!(Sp4095 [V0, V63, V2048, V4095] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Ooo { V200 = 200, V3 = 3, V64 = 64, V0 = 0, V129 = 129, V63 = 63, V1 = 1 }
variant!(Ooo [V200, V3, V64, V0, V129, V63, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Desc { V20 = 0x14, V19 = 0x13, V18 = 0x12, V17 = 0x11, V16 = 0x10, V15 = 0xf, V14 = 0xe, V13 = 0xd, V12 = 0xc, V11 = 0xb, V10 = 0xa, V9 = 0x9, V8 = 0x8, V7 = 0x7, V6 = 0x6, V5 = 0x5, V4 = 0x4, V3 = 0x3, V2 = 0x2, V1 = 0x1, V0 = 0x0 }
variant!(Desc [V20, V19, V18, V17, V16, V15, V14, V13, V12, V11, V10, V9, V8, V7, V6, V5, V4, V3, V2, V1, V0] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Mixed { V10 = 10, V11, V12, V3 = 3, V4, V64 = 64, V65, V0 = 0 }
variant!(Mixed [V10, V11, V12, V3, V4, V64, V65, V0] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum MixHex { V31 = 0x1f, V32 = 0x20, V7 = 0x7, V63 = 0x3f, V64 = 0x40 }
variant!(MixHex [V31, V32, V7, V63, V64] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Lits { V5 = 0b101, V15 = 0o17, V10 = 1_0, V64 = 64isize, V66 = 0x0_42, V65 = 0b1000001, V1000 = 0o1750 }
variant!(Lits [V5, V15, V10, V64, V66, V65, V1000] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(crate_name = "enumset")]
pub enum Named { V4 = 4, V2 = 2, V130 = 130 }
variant!(Named [V4, V2, V130] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Wide9 { V0, V7 = 7, V14 = 14, V21 = 21, V28 = 28, V35 = 35, V42 = 42, V49 = 49, V56 = 56, V63 = 63, V70 = 70, V77 = 77, V84 = 84, V91 = 91, V98 = 98, V105 = 105, V112 = 112, V119 = 119, V126 = 126, V133 = 133, V140 = 140, V147 = 147, V154 = 154, V161 = 161, V168 = 168, V175 = 175, V182 = 182, V189 = 189, V196 = 196, V203 = 203, V210 = 210, V217 = 217, V224 = 224, V231 = 231, V238 = 238, V245 = 245, V252 = 252, V259 = 259, V266 = 266, V273 = 273, V280 = 280, V287 = 287, V294 = 294, V301 = 301, V308 = 308, V315 = 315, V322 = 322, V329 = 329, V336 = 336, V343 = 343, V350 = 350, V357 = 357, V364 = 364, V371 = 371, V378 = 378, V385 = 385, V392 = 392, V399 = 399, V406 = 406, V413 = 413, V420 = 420, V427 = 427, V434 = 434, V441 = 441, V448 = 448, V455 = 455, V462 = 462, V469 = 469, V476 = 476, V483 = 483, V490 = 490, V497 = 497, V504 = 504, V511 = 511, V518 = 518, V525 = 525, V532 = 532, V539 = 539, V546 = 546, V553 = 553, V560 = 560, V567 = 567, V574 = 574, V575 }
variant!(Wide9 [V0, V7, V14, V21, V28, V35, V42, V49, V56, V63, V70, V77, V84, V91, V98, V105, V112, V119, V126, V133, V140, V147, V154, V161, V168, V175, V182, V189, V196, V203, V210, V217, V224, V231, V238, V245, V252, V259, V266, V273, V280, V287, V294, V301, V308, V315, V322, V329, V336, V343, V350, V357, V364, V371, V378, V385, V392, V399, V406, V413, V420, V427, V434, V441, V448, V455, V462, V469, V476, V483, V490, V497, V504, V511, V518, V525, V532, V539, V546, V553, V560, V567, V574, V575] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Words { V63 = 63, V127 = 127, V191 = 191, V255 = 255, V319 = 319, V383 = 383, V447 = 447, V511 = 511, V575 = 575, V639 = 639, V703 = 703, V767 = 767, V831 = 831, V895 = 895, V959 = 959, V1023 = 1023 }
variant!(Words [V63, V127, V191, V255, V319, V383, V447, V511, V575, V639, V703, V767, V831, V895, V959, V1023] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Big { V0, V63 = 63, V16383 = 16383, V16384, V65535 = 65535, V65536, V70000 = 70000 }
variant!(Big [V0, V63, V16383, V16384, V65535, V65536, V70000] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum Raw { /// documented
r#fn, #[allow(dead_code)] r#type, #[cfg(all())] r#match, r#async = 33, #[doc(hidden)] r#dyn = 64 }
variant!(Raw [r#fn, r#type, r#match, r#async, r#dyn] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "u8")]
pub enum R8 { V0, V1, V2, V3, V4, V5, V6, V7 }
variant!(R8 [V0, V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); with_repr!(u8); });

#[derive(EnumSetType)]
#[enumset(repr = "u8")]
pub enum R8s { V1 = 1, V4 = 4, V6 = 6 }
variant!(R8s [V1, V4, V6] { const_macros!(); ops!(); with_repr!(u8); });

#[derive(EnumSetType)]
#[enumset(repr = "u16")]
pub enum R16 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
variant!(R16 [V0, V1, V2, V3, V4, V5, V6, V7, V8] { const_macros!(); ops!(); with_repr!(u16); });

#[derive(EnumSetType)]
#[enumset(repr = "u16")]
pub enum R16f { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
variant!(R16f [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15] { const_macros!(); ops!(); with_repr!(u16); });

#[derive(EnumSetType)]
#[enumset(repr = "u16")]
pub enum R16s { V0, V2 = 2, V3 }
variant!(R16s [V0, V2, V3] { const_macros!(); ops!(); with_repr!(u16); });

#[derive(EnumSetType)]
#[enumset(repr = "u32")]
pub enum R32 { V0, V5 = 5, V17 = 17, V31 = 31 }
variant!(R32 [V0, V5, V17, V31] { const_macros!(); ops!(); with_repr!(u32); });

#[derive(EnumSetType)]
#[enumset(repr = "u32")]
pub enum R32f { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
variant!(R32f [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31] { const_macros!(); ops!(); with_repr!(u32); });

#[derive(EnumSetType)]
#[enumset(repr = "u32")]
pub enum R32s { V0, V1, V2, V3, V4, V5 }
variant!(R32s [V0, V1, V2, V3, V4, V5] { const_macros!(); ops!(); with_repr!(u32); });

#[derive(EnumSetType)]
#[enumset(repr = "u64")]
pub enum R64 { V0, V1, V31 = 31, V32, V33, V62 = 62, V63 }
variant!(R64 [V0, V1, V31, V32, V33, V62, V63] { const_macros!(); ops!(); with_repr!(u64); });

#[derive(EnumSetType)]
#[enumset(repr = "u64")]
pub enum R64f { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
variant!(R64f [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63] { const_macros!(); ops!(); with_repr!(u64); });

#[derive(EnumSetType)]
#[enumset(repr = "u64")]
pub enum R64s { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9 }
variant!(R64s [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9] { const_macros!(); ops!(); with_repr!(u64); });

#[derive(EnumSetType)]
#[enumset(repr = "u128")]
pub enum R128 { V0, V1, V62 = 62, V63, V64, V65, V126 = 126, V127 }
variant!(R128 [V0, V1, V62, V63, V64, V65, V126, V127] { const_macros!(); ops!(); with_repr!(u128); });

#[derive(EnumSetType)]
#[enumset(repr = "u128")]
pub enum R128f { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
variant!(R128f [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127] { const_macros!(); ops!(); with_repr!(u128); });

#[derive(EnumSetType)]
#[enumset(repr = "u128")]
pub enum R128s { V0, V1, V2 }
variant!(R128s [V0, V1, V2] { const_macros!(); ops!(); with_repr!(u128); });

#[derive(EnumSetType)]
#[enumset(repr = "u128")]
pub enum R128m { V60 = 60, V61, V62, V63, V64, V65, V66, V67, V68, V69 }
variant!(R128m [V60, V61, V62, V63, V64, V65, V66, V67, V68, V69] { const_macros!(); ops!(); with_repr!(u128); });

#[derive(EnumSetType)]
#[enumset(repr = "u128")]
pub enum R128lo { V5 = 5, V9 = 9 }
variant!(R128lo [V5, V9] { const_macros!(); ops!(); with_repr!(u128); });

#[derive(EnumSetType)]
#[enumset(repr = "u128")]
pub enum R128hi { V70 = 70, V127 = 127 }
variant!(R128hi [V70, V127] { const_macros!(); ops!(); with_repr!(u128); });

#[derive(EnumSetType)]
#[enumset(repr = "u8")]
pub enum R8one { V3 = 3 }
variant!(R8one [V3] { const_macros!(); ops!(); with_repr!(u8); });

#[derive(EnumSetType)]
#[enumset(repr = "u32")]
pub enum REmpty {  }
variant_empty!(REmpty [] { with_repr!(u32); });

#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum A1 { V0, V1, V2 }
variant!(A1 [V0, V1, V2] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum A8 { V0, V1, V2, V3, V4, V5, V6, V7 }
variant!(A8 [V0, V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum A63 { V0, V7 = 7, V31 = 31, V62 = 62 }
variant!(A63 [V0, V7, V31, V62] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum A64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
variant!(A64 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum A65 { V0, V1, V63 = 63, V64 }
variant!(A65 [V0, V1, V63, V64] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum A128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
variant!(A128 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum A130 { V0, V64 = 64, V127 = 127, V128, V129 }
variant!(A130 [V0, V64, V127, V128, V129] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(u8)]
pub enum Ru8 { V0, V1, V100 = 100, V200 = 200, V255 = 255 }
variant!(Ru8 [V0, V1, V100, V200, V255] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "u64")]
#[repr(u8)]
pub enum Ru8d { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39 }
variant!(Ru8d [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39] { const_macros!(); ops!(); with_repr!(u64); });

#[derive(EnumSetType)]
#[repr(u16)]
pub enum Ru16 { V0, V255 = 255, V256, V300 = 300 }
variant!(Ru16 [V0, V255, V256, V300] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(u32)]
pub enum Ru32 { V1 = 1, V2, V33 = 33, V65 = 65 }
variant!(Ru32 [V1, V2, V33, V65] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(u64)]
pub enum Ru64 { V0, V31 = 31, V32, V63 = 63 }
variant!(Ru64 [V0, V31, V32, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(usize)]
pub enum Rusize { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }
variant!(Rusize [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(i8)]
pub enum Ri8 { V0, V1, V64 = 64, V126 = 126, V127 }
variant!(Ri8 [V0, V1, V64, V126, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "u16")]
#[repr(i16)]
pub enum Ri16 { V0, V9 = 9, V15 = 15 }
variant!(Ri16 [V0, V9, V15] { const_macros!(); ops!(); with_repr!(u16); });

#[derive(EnumSetType)]
#[repr(i32)]
pub enum Ri32 { V2 = 2, V6 = 6, V130 = 130 }
variant!(Ri32 [V2, V6, V130] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(i64)]
pub enum Ri64 { V3 = 3, V40 = 40, V41 }
variant!(Ri64 [V3, V40, V41] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(isize)]
pub enum Risize { V0, V20 = 20, V90 = 90 }
variant!(Risize [V0, V20, V90] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(C)]
pub enum Rc { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9 }
variant!(Rc [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(C)]
pub enum Rc2 { V7 = 7, V70 = 70, V170 = 170 }
variant!(Rc2 [V7, V70, V170] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[repr(Rust)]
pub enum RRust { V0, V1, V2, V3, V4 }
variant!(RRust [V0, V1, V2, V3, V4] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(no_ops)]
pub enum NoOps { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10 }
variant!(NoOps [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10] { const_macros!(); });

#[derive(EnumSetType)]
#[enumset(no_ops)]
pub enum NoOpsArr { V0, V63 = 63, V64, V190 = 190 }
variant!(NoOpsArr [V0, V63, V64, V190] { const_macros!(); });

#[derive(Clone, Copy, PartialEq, Eq)]
#[derive(EnumSetType)]
#[enumset(no_super_impls)]
pub enum NoSuper { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12 }
variant!(NoSuper [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12] { const_macros!(); ops!(); });

#[derive(Clone, Copy, PartialEq, Eq)]
#[derive(EnumSetType)]
#[enumset(no_ops, no_super_impls)]
pub enum NoBoth { V0, V33 = 33, V66 = 66, V140 = 140 }
variant!(NoBoth [V0, V33, V66, V140] { const_macros!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8")]
pub enum SU8 { V0, V1, V2, V5 = 5, V7 = 7 }
variant!(SU8 [V0, V1, V2, V5, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8")]
pub enum SU8Few { V0, V1, V3 = 3 }
variant!(SU8Few [V0, V1, V3] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16")]
pub enum SU16 { V0, V3 = 3, V8 = 8, V15 = 15 }
variant!(SU16 [V0, V3, V8, V15] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16")]
pub enum SU16Few { V0, V1, V3 = 3 }
variant!(SU16Few [V0, V1, V3] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32")]
pub enum SU32 { V0, V7 = 7, V16 = 16, V31 = 31 }
variant!(SU32 [V0, V7, V16, V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32")]
pub enum SU32Few { V0, V1, V3 = 3 }
variant!(SU32Few [V0, V1, V3] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64")]
pub enum SU64 { V0, V8 = 8, V33 = 33, V63 = 63 }
variant!(SU64 [V0, V8, V33, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64")]
pub enum SU64Few { V0, V1, V3 = 3 }
variant!(SU64Few [V0, V1, V3] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128")]
pub enum SU128 { V0, V63 = 63, V64, V127 = 127 }
variant!(SU128 [V0, V63, V64, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128")]
pub enum SU128Few { V0, V1, V3 = 3 }
variant!(SU128Few [V0, V1, V3] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SDef8 { V1 = 1, V2, V6 = 6 }
variant!(SDef8 [V1, V2, V6] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SDef16 { V0, V1, V9 = 9, V14 = 14 }
variant!(SDef16 [V0, V1, V9, V14] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SDef32 { V0, V17 = 17, V30 = 30 }
variant!(SDef32 [V0, V17, V30] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SDef64 { V1 = 1, V2, V40 = 40, V62 = 62 }
variant!(SDef64 [V1, V2, V40, V62] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SDef128 { V0, V64 = 64, V100 = 100, V126 = 126 }
variant!(SDef128 [V0, V64, V100, V126] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SDef200 { V0, V1, V63 = 63, V64, V128 = 128, V200 = 200 }
variant!(SDef200 [V0, V1, V63, V64, V128, V200] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SDef256 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 }
variant!(SDef256 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SDef700 { V5 = 5, V64 = 64, V320 = 320, V699 = 699 }
variant!(SDef700 [V5, V64, V320, V699] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "array")]
pub enum SArr { V0, V1, V2, V5 = 5 }
variant!(SArr [V0, V1, V2, V5] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "array")]
pub enum SArr64 { V0, V1, V62 = 62, V63 }
variant!(SArr64 [V0, V1, V62, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "array")]
pub enum SArr128 { V0, V63 = 63, V64, V127 = 127 }
variant!(SArr128 [V0, V63, V64, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "array")]
pub enum SArr300 { V1 = 1, V65 = 65, V130 = 130, V195 = 195, V260 = 260, V299 = 299 }
variant!(SArr300 [V1, V65, V130, V195, V260, V299] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "u16", serialize_repr = "array")]
pub enum SArrR16 { V0, V9 = 9, V11 = 11 }
variant!(SArrR16 [V0, V9, V11] { const_macros!(); ops!(); with_repr!(u16); });

#[derive(EnumSetType)]
#[enumset(repr = "u128", serialize_repr = "array")]
pub enum SArrR128 { V2 = 2, V63 = 63, V64, V101 = 101 }
variant!(SArrR128 [V2, V63, V64, V101] { const_macros!(); ops!(); with_repr!(u128); });

#[derive(EnumSetType)]
#[enumset(repr = "array", serialize_repr = "array")]
pub enum SArrA { V0, V1, V2, V3, V4, V5, V6, V7 }
variant!(SArrA [V0, V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum SIntA { V0, V3 = 3, V6 = 6 }
variant!(SIntA [V0, V3, V6] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "array", serialize_repr = "u64")]
pub enum SIntA64 { V0, V3 = 3, V60 = 60 }
variant!(SIntA64 [V0, V3, V60] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "array", serialize_repr = "u128")]
pub enum SIntA128 { V0, V64 = 64, V127 = 127 }
variant!(SIntA128 [V0, V64, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "u32", serialize_repr = "u64")]
pub enum SR32as64 { V0, V15 = 15, V31 = 31 }
variant!(SR32as64 [V0, V15, V31] { const_macros!(); ops!(); with_repr!(u32); });

#[derive(EnumSetType)]
#[enumset(repr = "u128", serialize_repr = "u8")]
pub enum SR128as8 { V0, V1, V7 = 7 }
variant!(SR128as8 [V0, V1, V7] { const_macros!(); ops!(); with_repr!(u128); });

#[derive(EnumSetType)]
#[enumset(repr = "u64", serialize_repr = "u128")]
pub enum SR64as128 { V0, V20 = 20, V63 = 63 }
variant!(SR64as128 [V0, V20, V63] { const_macros!(); ops!(); with_repr!(u64); });

#[derive(EnumSetType)]
#[enumset(repr = "u8", serialize_repr = "u32")]
pub enum SR8as32 { V0, V1, V2, V3, V4, V5, V6, V7 }
variant!(SR8as32 [V0, V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); with_repr!(u8); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list")]
pub enum SList { V0, V1, V2, V3, V4, V9 = 9 }
variant!(SList [V0, V1, V2, V3, V4, V9] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map")]
pub enum SMap { V0, V1, V2, V3, V4, V9 = 9 }
variant!(SMap [V0, V1, V2, V3, V4, V9] { const_macros!(); ops!(); ref_map!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8", serialize_deny_unknown)]
pub enum SU8X { V0, V1, V2, V5 = 5, V7 = 7 }
variant!(SU8X [V0, V1, V2, V5, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8", serialize_deny_unknown)]
pub enum SU8FewX { V0, V1, V3 = 3 }
variant!(SU8FewX [V0, V1, V3] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8", serialize_deny_unknown)]
pub enum SU8FullX { V0, V1, V2, V3, V4, V5, V6, V7 }
variant!(SU8FullX [V0, V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16", serialize_deny_unknown)]
pub enum SU16X { V0, V3 = 3, V8 = 8, V15 = 15 }
variant!(SU16X [V0, V3, V8, V15] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16", serialize_deny_unknown)]
pub enum SU16FewX { V0, V1, V3 = 3 }
variant!(SU16FewX [V0, V1, V3] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16", serialize_deny_unknown)]
pub enum SU16FullX { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
variant!(SU16FullX [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32", serialize_deny_unknown)]
pub enum SU32X { V0, V7 = 7, V16 = 16, V31 = 31 }
variant!(SU32X [V0, V7, V16, V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32", serialize_deny_unknown)]
pub enum SU32FewX { V0, V1, V3 = 3 }
variant!(SU32FewX [V0, V1, V3] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32", serialize_deny_unknown)]
pub enum SU32FullX { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
variant!(SU32FullX [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64", serialize_deny_unknown)]
pub enum SU64X { V0, V8 = 8, V33 = 33, V63 = 63 }
variant!(SU64X [V0, V8, V33, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64", serialize_deny_unknown)]
pub enum SU64FewX { V0, V1, V3 = 3 }
variant!(SU64FewX [V0, V1, V3] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64", serialize_deny_unknown)]
pub enum SU64FullX { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
variant!(SU64FullX [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128", serialize_deny_unknown)]
pub enum SU128X { V0, V63 = 63, V64, V127 = 127 }
#[cfg(feature = "deny_array_shapes")]
variant!(SU128X [V0, V63, V64, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128", serialize_deny_unknown)]
pub enum SU128FewX { V0, V1, V3 = 3 }
variant!(SU128FewX [V0, V1, V3] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128", serialize_deny_unknown)]
pub enum SU128FullX { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
#[cfg(feature = "deny_array_shapes")]
variant!(SU128FullX [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SDef8X { V1 = 1, V2, V6 = 6 }
variant!(SDef8X [V1, V2, V6] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SDef16X { V0, V1, V9 = 9, V14 = 14 }
variant!(SDef16X [V0, V1, V9, V14] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SDef32X { V0, V17 = 17, V30 = 30 }
variant!(SDef32X [V0, V17, V30] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SDef64X { V1 = 1, V2, V40 = 40, V62 = 62 }
variant!(SDef64X [V1, V2, V40, V62] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SDef128X { V0, V64 = 64, V100 = 100, V126 = 126 }
#[cfg(feature = "deny_array_shapes")]
variant!(SDef128X [V0, V64, V100, V126] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SDef200X { V0, V1, V63 = 63, V64, V128 = 128, V200 = 200 }
#[cfg(feature = "deny_array_shapes")]
variant!(SDef200X [V0, V1, V63, V64, V128, V200] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SDef256X { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 }
#[cfg(feature = "deny_array_shapes")]
variant!(SDef256X [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SDef700X { V5 = 5, V64 = 64, V320 = 320, V699 = 699 }
#[cfg(feature = "deny_array_shapes")]
variant!(SDef700X [V5, V64, V320, V699] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum SArrX { V0, V1, V2, V5 = 5 }
#[cfg(feature = "deny_array_shapes")]
variant!(SArrX [V0, V1, V2, V5] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum SArr64X { V0, V1, V62 = 62, V63 }
#[cfg(feature = "deny_array_shapes")]
variant!(SArr64X [V0, V1, V62, V63] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum SArr128X { V0, V63 = 63, V64, V127 = 127 }
#[cfg(feature = "deny_array_shapes")]
variant!(SArr128X [V0, V63, V64, V127] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum SArr300X { V1 = 1, V65 = 65, V130 = 130, V195 = 195, V260 = 260, V299 = 299 }
#[cfg(feature = "deny_array_shapes")]
variant!(SArr300X [V1, V65, V130, V195, V260, V299] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(repr = "u16", serialize_repr = "array", serialize_deny_unknown)]
pub enum SArrR16X { V0, V9 = 9, V11 = 11 }
#[cfg(feature = "deny_array_shapes")]
variant!(SArrR16X [V0, V9, V11] { const_macros!(); ops!(); with_repr!(u16); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)]
pub enum SArrR128X { V2 = 2, V63 = 63, V64, V101 = 101 }
#[cfg(feature = "deny_array_shapes")]
variant!(SArrR128X [V2, V63, V64, V101] { const_macros!(); ops!(); with_repr!(u128); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)]
pub enum SArrAX { V0, V1, V2, V3, V4, V5, V6, V7 }
#[cfg(feature = "deny_array_shapes")]
variant!(SArrAX [V0, V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(repr = "array", serialize_deny_unknown)]
pub enum SIntAX { V0, V3 = 3, V6 = 6 }
#[cfg(feature = "deny_array_shapes")]
variant!(SIntAX [V0, V3, V6] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(repr = "array", serialize_repr = "u64", serialize_deny_unknown)]
pub enum SIntA64X { V0, V3 = 3, V60 = 60 }
#[cfg(feature = "deny_array_shapes")]
variant!(SIntA64X [V0, V3, V60] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)]
pub enum SIntA128X { V0, V64 = 64, V127 = 127 }
#[cfg(feature = "deny_array_shapes")]
variant!(SIntA128X [V0, V64, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(repr = "u32", serialize_repr = "u64", serialize_deny_unknown)]
pub enum SR32as64X { V0, V15 = 15, V31 = 31 }
variant!(SR32as64X [V0, V15, V31] { const_macros!(); ops!(); with_repr!(u32); });

#[derive(EnumSetType)]
#[enumset(repr = "u128", serialize_repr = "u8", serialize_deny_unknown)]
pub enum SR128as8X { V0, V1, V7 = 7 }
variant!(SR128as8X [V0, V1, V7] { const_macros!(); ops!(); with_repr!(u128); });

#[derive(EnumSetType)]
#[enumset(repr = "u64", serialize_repr = "u128", serialize_deny_unknown)]
pub enum SR64as128X { V0, V20 = 20, V63 = 63 }
variant!(SR64as128X [V0, V20, V63] { const_macros!(); ops!(); with_repr!(u64); });

#[derive(EnumSetType)]
#[enumset(repr = "u8", serialize_repr = "u32", serialize_deny_unknown)]
pub enum SR8as32X { V0, V1, V2, V3, V4, V5, V6, V7 }
variant!(SR8as32X [V0, V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); with_repr!(u8); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list", serialize_deny_unknown)]
pub enum SListX { V0, V1, V2, V3, V4, V9 = 9 }
variant!(SListX [V0, V1, V2, V3, V4, V9] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map", serialize_deny_unknown)]
pub enum SMapX { V0, V1, V2, V3, V4, V9 = 9 }
variant!(SMapX [V0, V1, V2, V3, V4, V9] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list")]
pub enum SList200 { V7 = 7, V3 = 3, V200 = 200, V64 = 64, V0 = 0 }
variant!(SList200 [V7, V3, V200, V64, V0] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map")]
pub enum SMap200 { V7 = 7, V3 = 3, V200 = 200, V64 = 64, V0 = 0 }
variant!(SMap200 [V7, V3, V200, V64, V0] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list")]
pub enum SListD70 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69 }
variant!(SListD70 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map")]
pub enum SMapD70 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69 }
variant!(SMapD70 [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(repr = "u32", serialize_repr = "list")]
pub enum SListR { V1 = 1, V5 = 5, V30 = 30 }
variant!(SListR [V1, V5, V30] { const_macros!(); ops!(); with_repr!(u32); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(repr = "array", serialize_repr = "map")]
pub enum SMapA { V1 = 1, V5 = 5, V30 = 30 }
variant!(SMapA [V1, V5, V30] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list", no_ops)]
pub enum SListNoOps { V0, V4 = 4, V8 = 8 }
variant!(SListNoOps [V0, V4, V8] { const_macros!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map", no_ops)]
pub enum SMapNoOps { V0, V4 = 4, V8 = 8 }
variant!(SMapNoOps [V0, V4, V8] { const_macros!(); ref_map!(); });

#[derive(Clone, Copy, PartialEq, Eq)]
#[derive(EnumSetType)]
#[enumset(no_ops, no_super_impls)]
pub enum SNoSuper { V0, V4 = 4, V80 = 80 }
variant!(SNoSuper [V0, V4, V80] { const_macros!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16")]
pub enum SEmpty {  }
variant_empty!(SEmpty [] {  });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_as_list)]
pub enum SLegList { V0, V2 = 2, V9 = 9, V70 = 70 }
variant!(SLegList [V0, V2, V9, V70] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_as_map)]
pub enum SLegMap { V0, V2 = 2, V9 = 9, V70 = 70 }
variant!(SLegMap [V0, V2, V9, V70] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_as_map, serialize_as_list)]
pub enum SLegBoth { V1 = 1, V3 = 3, V5 = 5 }
variant!(SLegBoth [V1, V3, V5] { const_macros!(); ops!(); ref_list!(); });

#[derive(EnumSetType)]
pub enum SArr1500 { V0, V63 = 63, V64, V512 = 512, V1023 = 1023, V1024, V1500 = 1500 }
variant!(SArr1500 [V0, V63, V64, V512, V1023, V1024, V1500] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "array")]
pub enum SArrGap { V640 = 640, V641, V703 = 703 }
variant!(SArrGap [V640, V641, V703] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum SArrGapX { V640 = 640, V641, V703 = 703 }
#[cfg(feature = "deny_array_shapes")]
variant!(SArrGapX [V640, V641, V703] { const_macros!(); ops!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list")]
pub enum SListWide { V0, V40 = 40, V80 = 80, V120 = 120, V160 = 160, V200 = 200, V240 = 240, V280 = 280, V320 = 320, V360 = 360, V400 = 400, V440 = 440, V480 = 480, V520 = 520, V560 = 560 }
variant!(SListWide [V0, V40, V80, V120, V160, V200, V240, V280, V320, V360, V400, V440, V480, V520, V560] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map")]
pub enum SMapWide { V0, V40 = 40, V80 = 80, V120 = 120, V160 = 160, V200 = 200, V240 = 240, V280 = 280, V320 = 320, V360 = 360, V400 = 400, V440 = 440, V480 = 480, V520 = 520, V560 = 560 }
variant!(SMapWide [V0, V40, V80, V120, V160, V200, V240, V280, V320, V360, V400, V440, V480, V520, V560] { const_macros!(); ops!(); ref_map!(); });

#[derive(EnumSetType)]
pub enum SBig { V1 = 1, V64 = 64, V16384 = 16384, V20000 = 20000 }
variant!(SBig [V1, V64, V16384, V20000] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SOoo { V100 = 100, V3 = 3, V64 = 64, V0 = 0, V126 = 126, V63 = 63, V1 = 1 }
variant!(SOoo [V100, V3, V64, V0, V126, V63, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32", serialize_deny_unknown)]
pub enum SOooX { V30 = 30, V3 = 3, V16 = 16, V0 = 0 }
variant!(SOooX [V30, V3, V16, V0] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SMax7 { V7 = 7, V0 = 0, V3 = 3, V1 = 1 }
variant!(SMax7 [V7, V0, V3, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SMax8 { V8 = 8, V0 = 0, V4 = 4, V1 = 1 }
variant!(SMax8 [V8, V0, V4, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SMax15 { V15 = 15, V0 = 0, V7 = 7, V1 = 1 }
variant!(SMax15 [V15, V0, V7, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SMax16 { V16 = 16, V0 = 0, V8 = 8, V1 = 1 }
variant!(SMax16 [V16, V0, V8, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SMax31 { V31 = 31, V0 = 0, V15 = 15, V1 = 1 }
variant!(SMax31 [V31, V0, V15, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SMax32 { V32 = 32, V0 = 0, V16 = 16, V1 = 1 }
variant!(SMax32 [V32, V0, V16, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SMax63 { V63 = 63, V0 = 0, V31 = 31, V1 = 1 }
variant!(SMax63 [V63, V0, V31, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SMax64 { V64 = 64, V0 = 0, V32 = 32, V1 = 1 }
variant!(SMax64 [V64, V0, V32, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SMax127 { V127 = 127, V0 = 0, V63 = 63, V1 = 1 }
variant!(SMax127 [V127, V0, V63, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SMax128 { V128 = 128, V0 = 0, V64 = 64, V1 = 1 }
variant!(SMax128 [V128, V0, V64, V1] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum SOne0 { V0 }
variant!(SOne0 [V0] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SOne9 { V9 = 9 }
variant!(SOne9 [V9] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SOne64 { V64 = 64 }
variant!(SOne64 [V64] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum SOne300 { V300 = 300 }
variant!(SOne300 [V300] { const_macros!(); ops!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list")]
pub enum SOneList { V5 = 5 }
variant!(SOneList [V5] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map")]
pub enum SOneMap { V70 = 70 }
variant!(SOneMap [V70] { const_macros!(); ops!(); ref_map!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8")]
pub enum VU81 { V0, V1, V2 }
variant!(VU81 [V0, V1, V2] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8")]
pub enum VU82 { V0, V1, V2, V5 = 5, V7 = 7 }
variant!(VU82 [V0, V1, V2, V5, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8")]
pub enum VU83 { V1 = 1, V2, V3, V4, V5, V6, V7 }
variant!(VU83 [V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8", serialize_deny_unknown)]
pub enum VU8X1 { V0, V1, V2 }
variant!(VU8X1 [V0, V1, V2] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8", serialize_deny_unknown)]
pub enum VU8X2 { V0, V1, V2, V5 = 5, V7 = 7 }
variant!(VU8X2 [V0, V1, V2, V5, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u8", serialize_deny_unknown)]
pub enum VU8X3 { V1 = 1, V2, V3, V4, V5, V6, V7 }
variant!(VU8X3 [V1, V2, V3, V4, V5, V6, V7] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16")]
pub enum VU161 { V0, V8 = 8, V9 }
variant!(VU161 [V0, V8, V9] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16")]
pub enum VU162 { V0, V1, V8 = 8, V9, V15 = 15 }
variant!(VU162 [V0, V1, V8, V9, V15] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16")]
pub enum VU163 { V3 = 3, V8 = 8, V15 = 15 }
variant!(VU163 [V3, V8, V15] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16", serialize_deny_unknown)]
pub enum VU16X1 { V0, V8 = 8, V9 }
variant!(VU16X1 [V0, V8, V9] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16", serialize_deny_unknown)]
pub enum VU16X2 { V0, V1, V8 = 8, V9, V15 = 15 }
variant!(VU16X2 [V0, V1, V8, V9, V15] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u16", serialize_deny_unknown)]
pub enum VU16X3 { V3 = 3, V8 = 8, V15 = 15 }
variant!(VU16X3 [V3, V8, V15] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32")]
pub enum VU321 { V0, V30 = 30 }
variant!(VU321 [V0, V30] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32")]
pub enum VU322 { V0, V8 = 8, V30 = 30, V31 }
variant!(VU322 [V0, V8, V30, V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32")]
pub enum VU323 { V1 = 1, V8 = 8, V16 = 16, V31 = 31 }
variant!(VU323 [V1, V8, V16, V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32", serialize_deny_unknown)]
pub enum VU32X1 { V0, V30 = 30 }
variant!(VU32X1 [V0, V30] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32", serialize_deny_unknown)]
pub enum VU32X2 { V0, V8 = 8, V30 = 30, V31 }
variant!(VU32X2 [V0, V8, V30, V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u32", serialize_deny_unknown)]
pub enum VU32X3 { V1 = 1, V8 = 8, V16 = 16, V31 = 31 }
variant!(VU32X3 [V1, V8, V16, V31] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64")]
pub enum VU641 { V0, V40 = 40 }
variant!(VU641 [V0, V40] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64")]
pub enum VU642 { V0, V1, V40 = 40, V63 = 63 }
variant!(VU642 [V0, V1, V40, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64")]
pub enum VU643 { V33 = 33, V62 = 62, V63 }
variant!(VU643 [V33, V62, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64", serialize_deny_unknown)]
pub enum VU64X1 { V0, V40 = 40 }
variant!(VU64X1 [V0, V40] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64", serialize_deny_unknown)]
pub enum VU64X2 { V0, V1, V40 = 40, V63 = 63 }
variant!(VU64X2 [V0, V1, V40, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u64", serialize_deny_unknown)]
pub enum VU64X3 { V33 = 33, V62 = 62, V63 }
variant!(VU64X3 [V33, V62, V63] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128")]
pub enum VU1281 { V0, V70 = 70 }
variant!(VU1281 [V0, V70] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128")]
pub enum VU1282 { V0, V1, V64 = 64, V70 = 70, V127 = 127 }
variant!(VU1282 [V0, V1, V64, V70, V127] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128")]
pub enum VU1283 { V63 = 63, V64, V126 = 126 }
variant!(VU1283 [V63, V64, V126] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128", serialize_deny_unknown)]
pub enum VU128X1 { V0, V70 = 70 }
#[cfg(feature = "deny_array_shapes")]
variant!(VU128X1 [V0, V70] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128", serialize_deny_unknown)]
pub enum VU128X2 { V0, V1, V64 = 64, V70 = 70, V127 = 127 }
#[cfg(feature = "deny_array_shapes")]
variant!(VU128X2 [V0, V1, V64, V70, V127] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "u128", serialize_deny_unknown)]
pub enum VU128X3 { V63 = 63, V64, V126 = 126 }
#[cfg(feature = "deny_array_shapes")]
variant!(VU128X3 [V63, V64, V126] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "array")]
pub enum VArray1 { V0, V1, V40 = 40 }
variant!(VArray1 [V0, V1, V40] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "array")]
pub enum VArray2 { V0, V1, V40 = 40, V63 = 63, V64, V130 = 130 }
variant!(VArray2 [V0, V1, V40, V63, V64, V130] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_repr = "array")]
pub enum VArray3 { V2 = 2, V63 = 63, V190 = 190, V191, V256 = 256 }
variant!(VArray3 [V2, V63, V190, V191, V256] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum VArrayX1 { V0, V1, V40 = 40 }
#[cfg(feature = "deny_array_shapes")]
variant!(VArrayX1 [V0, V1, V40] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum VArrayX2 { V0, V1, V40 = 40, V63 = 63, V64, V130 = 130 }
#[cfg(feature = "deny_array_shapes")]
variant!(VArrayX2 [V0, V1, V40, V63, V64, V130] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum VArrayX3 { V2 = 2, V63 = 63, V190 = 190, V191, V256 = 256 }
#[cfg(feature = "deny_array_shapes")]
variant!(VArrayX3 [V2, V63, V190, V191, V256] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum VDef1 { V0, V5 = 5 }
variant!(VDef1 [V0, V5] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum VDef2 { V0, V5 = 5, V12 = 12 }
variant!(VDef2 [V0, V5, V12] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum VDef3 { V0, V5 = 5, V12 = 12, V50 = 50 }
variant!(VDef3 [V0, V5, V12, V50] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum VDef4 { V5 = 5, V12 = 12, V50 = 50, V100 = 100 }
variant!(VDef4 [V5, V12, V50, V100] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum VDefX1 { V0, V5 = 5 }
variant!(VDefX1 [V0, V5] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum VDefX2 { V0, V5 = 5, V12 = 12 }
variant!(VDefX2 [V0, V5, V12] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum VDefX3 { V0, V5 = 5, V12 = 12, V50 = 50 }
variant!(VDefX3 [V0, V5, V12, V50] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum VDefX4 { V5 = 5, V12 = 12, V50 = 50, V100 = 100 }
#[cfg(feature = "deny_array_shapes")]
variant!(VDefX4 [V5, V12, V50, V100] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum VDefarr1 { V0, V130 = 130 }
variant!(VDefarr1 [V0, V130] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum VDefarr2 { V0, V64 = 64, V130 = 130, V191 = 191 }
variant!(VDefarr2 [V0, V64, V130, V191] { const_macros!(); ops!(); });

#[derive(EnumSetType)]
pub enum VDefarr3 { V64 = 64, V191 = 191, V192, V500 = 500 }
variant!(VDefarr3 [V64, V191, V192, V500] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum VDefarrX1 { V0, V130 = 130 }
#[cfg(feature = "deny_array_shapes")]
variant!(VDefarrX1 [V0, V130] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum VDefarrX2 { V0, V64 = 64, V130 = 130, V191 = 191 }
#[cfg(feature = "deny_array_shapes")]
variant!(VDefarrX2 [V0, V64, V130, V191] { const_macros!(); ops!(); });

#[cfg(feature = "deny_array_shapes")]
#[derive(EnumSetType)]
#[enumset(serialize_deny_unknown)]
pub enum VDefarrX3 { V64 = 64, V191 = 191, V192, V500 = 500 }
#[cfg(feature = "deny_array_shapes")]
variant!(VDefarrX3 [V64, V191, V192, V500] { const_macros!(); ops!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list")]
pub enum VList1 { V0, V1, V2 }
variant!(VList1 [V0, V1, V2] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list")]
pub enum VList2 { V0, V1, V2, V3, V70 = 70 }
variant!(VList2 [V0, V1, V2, V3, V70] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list")]
pub enum VList3 { V2 = 2, V3, V70 = 70, V140 = 140 }
variant!(VList3 [V2, V3, V70, V140] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list", serialize_deny_unknown)]
pub enum VListX1 { V0, V1, V2 }
variant!(VListX1 [V0, V1, V2] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list", serialize_deny_unknown)]
pub enum VListX2 { V0, V1, V2, V3, V70 = 70 }
variant!(VListX2 [V0, V1, V2, V3, V70] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "list", serialize_deny_unknown)]
pub enum VListX3 { V2 = 2, V3, V70 = 70, V140 = 140 }
variant!(VListX3 [V2, V3, V70, V140] { const_macros!(); ops!(); ref_list!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map")]
pub enum VMap1 { V0, V1, V2 }
variant!(VMap1 [V0, V1, V2] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map")]
pub enum VMap2 { V0, V1, V2, V3, V70 = 70 }
variant!(VMap2 [V0, V1, V2, V3, V70] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map")]
pub enum VMap3 { V2 = 2, V3, V70 = 70, V140 = 140 }
variant!(VMap3 [V2, V3, V70, V140] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map", serialize_deny_unknown)]
pub enum VMapX1 { V0, V1, V2 }
variant!(VMapX1 [V0, V1, V2] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map", serialize_deny_unknown)]
pub enum VMapX2 { V0, V1, V2, V3, V70 = 70 }
variant!(VMapX2 [V0, V1, V2, V3, V70] { const_macros!(); ops!(); ref_map!(); });

#[derive(serde::Serialize, serde::Deserialize)]
#[derive(EnumSetType)]
#[enumset(serialize_repr = "map", serialize_deny_unknown)]
pub enum VMapX3 { V2 = 2, V3, V70 = 70, V140 = 140 }
variant!(VMapX3 [V2, V3, V70, V140] { const_macros!(); ops!(); ref_map!(); });

pub static SHAPES: &[ShapeMeta] = &[
    ShapeMeta { name: "Empty", declared: &[], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D1", declared: &[0], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D2", declared: &[0, 1], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D3", declared: &[0, 1, 2], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D7", declared: &[0, 1, 2, 3, 4, 5, 6], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D8", declared: &[0, 1, 2, 3, 4, 5, 6, 7], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D9", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D15", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D16", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D17", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D24", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D31", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D32", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D33", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D48", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D63", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D64", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D65", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D100", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D127", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D128", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D129", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D160", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D192", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D193", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D256", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D257", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "D300", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One5", declared: &[5], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One7", declared: &[7], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One8", declared: &[8], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One15", declared: &[15], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One31", declared: &[31], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One32", declared: &[32], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One62", declared: &[62], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One63", declared: &[63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One64", declared: &[64], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One127", declared: &[127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One128", declared: &[128], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "One200", declared: &[200], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp7", declared: &[0, 7], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp8", declared: &[0, 8], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp16", declared: &[3, 15, 16], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp32", declared: &[0, 1, 30, 31], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp33", declared: &[2, 31, 32], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp63", declared: &[0, 63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp64", declared: &[0, 64], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp65", declared: &[63, 64], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "SpHi", declared: &[64, 65, 66, 100, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp127", declared: &[10, 20, 30, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp128", declared: &[0, 1, 2, 128], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "SpEdge", declared: &[0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255, 256], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "SpGiant", declared: &[100, 200, 300, 400, 500, 600, 700, 800], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "SpGap", declared: &[5, 700, 701, 703, 704, 1000], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Sp4095", declared: &[0, 63, 2048, 4095], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ooo", declared: &[200, 3, 64, 0, 129, 63, 1], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Desc", declared: &[20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Mixed", declared: &[10, 11, 12, 3, 4, 64, 65, 0], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "MixHex", declared: &[31, 32, 7, 63, 64], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Lits", declared: &[5, 15, 10, 64, 66, 65, 1000], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Named", declared: &[4, 2, 130], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Wide9", declared: &[0, 7, 14, 21, 28, 35, 42, 49, 56, 63, 70, 77, 84, 91, 98, 105, 112, 119, 126, 133, 140, 147, 154, 161, 168, 175, 182, 189, 196, 203, 210, 217, 224, 231, 238, 245, 252, 259, 266, 273, 280, 287, 294, 301, 308, 315, 322, 329, 336, 343, 350, 357, 364, 371, 378, 385, 392, 399, 406, 413, 420, 427, 434, 441, 448, 455, 462, 469, 476, 483, 490, 497, 504, 511, 518, 525, 532, 539, 546, 553, 560, 567, 574, 575], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Words", declared: &[63, 127, 191, 255, 319, 383, 447, 511, 575, 639, 703, 767, 831, 895, 959, 1023], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Big", declared: &[0, 63, 16383, 16384, 65535, 65536, 70000], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Raw", declared: &[0, 1, 2, 33, 64], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R8", declared: &[0, 1, 2, 3, 4, 5, 6, 7], ser: SerKind::U8, deny: false, ops: true, repr_bits: 8, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R8s", declared: &[1, 4, 6], ser: SerKind::U8, deny: false, ops: true, repr_bits: 8, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R16", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8], ser: SerKind::U16, deny: false, ops: true, repr_bits: 16, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R16f", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], ser: SerKind::U16, deny: false, ops: true, repr_bits: 16, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R16s", declared: &[0, 2, 3], ser: SerKind::U8, deny: false, ops: true, repr_bits: 16, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R32", declared: &[0, 5, 17, 31], ser: SerKind::U32, deny: false, ops: true, repr_bits: 32, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R32f", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31], ser: SerKind::U32, deny: false, ops: true, repr_bits: 32, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R32s", declared: &[0, 1, 2, 3, 4, 5], ser: SerKind::U8, deny: false, ops: true, repr_bits: 32, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R64", declared: &[0, 1, 31, 32, 33, 62, 63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 64, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R64f", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 64, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R64s", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], ser: SerKind::U16, deny: false, ops: true, repr_bits: 64, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R128", declared: &[0, 1, 62, 63, 64, 65, 126, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R128f", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R128s", declared: &[0, 1, 2], ser: SerKind::U8, deny: false, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R128m", declared: &[60, 61, 62, 63, 64, 65, 66, 67, 68, 69], ser: SerKind::U128, deny: false, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R128lo", declared: &[5, 9], ser: SerKind::U16, deny: false, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R128hi", declared: &[70, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "R8one", declared: &[3], ser: SerKind::U8, deny: false, ops: true, repr_bits: 8, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "REmpty", declared: &[], ser: SerKind::U8, deny: false, ops: true, repr_bits: 32, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "A1", declared: &[0, 1, 2], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "A8", declared: &[0, 1, 2, 3, 4, 5, 6, 7], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "A63", declared: &[0, 7, 31, 62], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "A64", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "A65", declared: &[0, 1, 63, 64], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "A128", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "A130", declared: &[0, 64, 127, 128, 129], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ru8", declared: &[0, 1, 100, 200, 255], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ru8d", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39], ser: SerKind::U64, deny: false, ops: true, repr_bits: 64, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ru16", declared: &[0, 255, 256, 300], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ru32", declared: &[1, 2, 33, 65], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ru64", declared: &[0, 31, 32, 63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Rusize", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ri8", declared: &[0, 1, 64, 126, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ri16", declared: &[0, 9, 15], ser: SerKind::U16, deny: false, ops: true, repr_bits: 16, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ri32", declared: &[2, 6, 130], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Ri64", declared: &[3, 40, 41], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Risize", declared: &[0, 20, 90], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Rc", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "Rc2", declared: &[7, 70, 170], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "RRust", declared: &[0, 1, 2, 3, 4], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "NoOps", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], ser: SerKind::U16, deny: false, ops: false, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "NoOpsArr", declared: &[0, 63, 64, 190], ser: SerKind::Array, deny: false, ops: false, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "NoSuper", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "NoBoth", declared: &[0, 33, 66, 140], ser: SerKind::Array, deny: false, ops: false, repr_bits: 0, fam: "", ver: 0, group: Group::Core },
    ShapeMeta { name: "SU8", declared: &[0, 1, 2, 5, 7], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU8Few", declared: &[0, 1, 3], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU16", declared: &[0, 3, 8, 15], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU16Few", declared: &[0, 1, 3], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU32", declared: &[0, 7, 16, 31], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU32Few", declared: &[0, 1, 3], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU64", declared: &[0, 8, 33, 63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU64Few", declared: &[0, 1, 3], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU128", declared: &[0, 63, 64, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU128Few", declared: &[0, 1, 3], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef8", declared: &[1, 2, 6], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef16", declared: &[0, 1, 9, 14], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef32", declared: &[0, 17, 30], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef64", declared: &[1, 2, 40, 62], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef128", declared: &[0, 64, 100, 126], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef200", declared: &[0, 1, 63, 64, 128, 200], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef256", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef700", declared: &[5, 64, 320, 699], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SArr", declared: &[0, 1, 2, 5], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SArr64", declared: &[0, 1, 62, 63], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SArr128", declared: &[0, 63, 64, 127], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SArr300", declared: &[1, 65, 130, 195, 260, 299], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SArrR16", declared: &[0, 9, 11], ser: SerKind::Array, deny: false, ops: true, repr_bits: 16, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SArrR128", declared: &[2, 63, 64, 101], ser: SerKind::Array, deny: false, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SArrA", declared: &[0, 1, 2, 3, 4, 5, 6, 7], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SIntA", declared: &[0, 3, 6], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SIntA64", declared: &[0, 3, 60], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SIntA128", declared: &[0, 64, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SR32as64", declared: &[0, 15, 31], ser: SerKind::U64, deny: false, ops: true, repr_bits: 32, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SR128as8", declared: &[0, 1, 7], ser: SerKind::U8, deny: false, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SR64as128", declared: &[0, 20, 63], ser: SerKind::U128, deny: false, ops: true, repr_bits: 64, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SR8as32", declared: &[0, 1, 2, 3, 4, 5, 6, 7], ser: SerKind::U32, deny: false, ops: true, repr_bits: 8, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SList", declared: &[0, 1, 2, 3, 4, 9], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMap", declared: &[0, 1, 2, 3, 4, 9], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU8X", declared: &[0, 1, 2, 5, 7], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU8FewX", declared: &[0, 1, 3], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU8FullX", declared: &[0, 1, 2, 3, 4, 5, 6, 7], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU16X", declared: &[0, 3, 8, 15], ser: SerKind::U16, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU16FewX", declared: &[0, 1, 3], ser: SerKind::U16, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU16FullX", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], ser: SerKind::U16, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU32X", declared: &[0, 7, 16, 31], ser: SerKind::U32, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU32FewX", declared: &[0, 1, 3], ser: SerKind::U32, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU32FullX", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31], ser: SerKind::U32, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU64X", declared: &[0, 8, 33, 63], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU64FewX", declared: &[0, 1, 3], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU64FullX", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SU128X", declared: &[0, 63, 64, 127], ser: SerKind::U128, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SU128FewX", declared: &[0, 1, 3], ser: SerKind::U128, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SU128FullX", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127], ser: SerKind::U128, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef8X", declared: &[1, 2, 6], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef16X", declared: &[0, 1, 9, 14], ser: SerKind::U16, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef32X", declared: &[0, 17, 30], ser: SerKind::U32, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SDef64X", declared: &[1, 2, 40, 62], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SDef128X", declared: &[0, 64, 100, 126], ser: SerKind::U128, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SDef200X", declared: &[0, 1, 63, 64, 128, 200], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SDef256X", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SDef700X", declared: &[5, 64, 320, 699], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SArrX", declared: &[0, 1, 2, 5], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SArr64X", declared: &[0, 1, 62, 63], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SArr128X", declared: &[0, 63, 64, 127], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SArr300X", declared: &[1, 65, 130, 195, 260, 299], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SArrR16X", declared: &[0, 9, 11], ser: SerKind::Array, deny: true, ops: true, repr_bits: 16, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SArrR128X", declared: &[2, 63, 64, 101], ser: SerKind::Array, deny: true, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SArrAX", declared: &[0, 1, 2, 3, 4, 5, 6, 7], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SIntAX", declared: &[0, 3, 6], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SIntA64X", declared: &[0, 3, 60], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SIntA128X", declared: &[0, 64, 127], ser: SerKind::U128, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SR32as64X", declared: &[0, 15, 31], ser: SerKind::U64, deny: true, ops: true, repr_bits: 32, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SR128as8X", declared: &[0, 1, 7], ser: SerKind::U8, deny: true, ops: true, repr_bits: 128, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SR64as128X", declared: &[0, 20, 63], ser: SerKind::U128, deny: true, ops: true, repr_bits: 64, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SR8as32X", declared: &[0, 1, 2, 3, 4, 5, 6, 7], ser: SerKind::U32, deny: true, ops: true, repr_bits: 8, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SListX", declared: &[0, 1, 2, 3, 4, 9], ser: SerKind::List, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMapX", declared: &[0, 1, 2, 3, 4, 9], ser: SerKind::Map, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SList200", declared: &[7, 3, 200, 64, 0], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMap200", declared: &[7, 3, 200, 64, 0], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SListD70", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMapD70", declared: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SListR", declared: &[1, 5, 30], ser: SerKind::List, deny: false, ops: true, repr_bits: 32, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMapA", declared: &[1, 5, 30], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SListNoOps", declared: &[0, 4, 8], ser: SerKind::List, deny: false, ops: false, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMapNoOps", declared: &[0, 4, 8], ser: SerKind::Map, deny: false, ops: false, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SNoSuper", declared: &[0, 4, 80], ser: SerKind::U128, deny: false, ops: false, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SEmpty", declared: &[], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SLegList", declared: &[0, 2, 9, 70], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SLegMap", declared: &[0, 2, 9, 70], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SLegBoth", declared: &[1, 3, 5], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SArr1500", declared: &[0, 63, 64, 512, 1023, 1024, 1500], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SArrGap", declared: &[640, 641, 703], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "SArrGapX", declared: &[640, 641, 703], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SListWide", declared: &[0, 40, 80, 120, 160, 200, 240, 280, 320, 360, 400, 440, 480, 520, 560], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMapWide", declared: &[0, 40, 80, 120, 160, 200, 240, 280, 320, 360, 400, 440, 480, 520, 560], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SBig", declared: &[1, 64, 16384, 20000], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SOoo", declared: &[100, 3, 64, 0, 126, 63, 1], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SOooX", declared: &[30, 3, 16, 0], ser: SerKind::U32, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax7", declared: &[7, 0, 3, 1], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax8", declared: &[8, 0, 4, 1], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax15", declared: &[15, 0, 7, 1], ser: SerKind::U16, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax16", declared: &[16, 0, 8, 1], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax31", declared: &[31, 0, 15, 1], ser: SerKind::U32, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax32", declared: &[32, 0, 16, 1], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax63", declared: &[63, 0, 31, 1], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax64", declared: &[64, 0, 32, 1], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax127", declared: &[127, 0, 63, 1], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SMax128", declared: &[128, 0, 64, 1], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SOne0", declared: &[0], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SOne9", declared: &[9], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SOne64", declared: &[64], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SOne300", declared: &[300], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SOneList", declared: &[5], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "SOneMap", declared: &[70], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "", ver: 0, group: Group::Ser },
    ShapeMeta { name: "VU81", declared: &[0, 1, 2], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "u8", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VU82", declared: &[0, 1, 2, 5, 7], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "u8", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VU83", declared: &[1, 2, 3, 4, 5, 6, 7], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "u8", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VU8X1", declared: &[0, 1, 2], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "u8", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VU8X2", declared: &[0, 1, 2, 5, 7], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "u8", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VU8X3", declared: &[1, 2, 3, 4, 5, 6, 7], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "u8", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VU161", declared: &[0, 8, 9], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "u16", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VU162", declared: &[0, 1, 8, 9, 15], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "u16", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VU163", declared: &[3, 8, 15], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "u16", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VU16X1", declared: &[0, 8, 9], ser: SerKind::U16, deny: true, ops: true, repr_bits: 0, fam: "u16", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VU16X2", declared: &[0, 1, 8, 9, 15], ser: SerKind::U16, deny: true, ops: true, repr_bits: 0, fam: "u16", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VU16X3", declared: &[3, 8, 15], ser: SerKind::U16, deny: true, ops: true, repr_bits: 0, fam: "u16", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VU321", declared: &[0, 30], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "u32", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VU322", declared: &[0, 8, 30, 31], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "u32", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VU323", declared: &[1, 8, 16, 31], ser: SerKind::U32, deny: false, ops: true, repr_bits: 0, fam: "u32", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VU32X1", declared: &[0, 30], ser: SerKind::U32, deny: true, ops: true, repr_bits: 0, fam: "u32", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VU32X2", declared: &[0, 8, 30, 31], ser: SerKind::U32, deny: true, ops: true, repr_bits: 0, fam: "u32", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VU32X3", declared: &[1, 8, 16, 31], ser: SerKind::U32, deny: true, ops: true, repr_bits: 0, fam: "u32", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VU641", declared: &[0, 40], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "u64", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VU642", declared: &[0, 1, 40, 63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "u64", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VU643", declared: &[33, 62, 63], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "u64", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VU64X1", declared: &[0, 40], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "u64", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VU64X2", declared: &[0, 1, 40, 63], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "u64", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VU64X3", declared: &[33, 62, 63], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "u64", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VU1281", declared: &[0, 70], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "u128", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VU1282", declared: &[0, 1, 64, 70, 127], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "u128", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VU1283", declared: &[63, 64, 126], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "u128", ver: 3, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VU128X1", declared: &[0, 70], ser: SerKind::U128, deny: true, ops: true, repr_bits: 0, fam: "u128", ver: 1, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VU128X2", declared: &[0, 1, 64, 70, 127], ser: SerKind::U128, deny: true, ops: true, repr_bits: 0, fam: "u128", ver: 2, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VU128X3", declared: &[63, 64, 126], ser: SerKind::U128, deny: true, ops: true, repr_bits: 0, fam: "u128", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VArray1", declared: &[0, 1, 40], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "array", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VArray2", declared: &[0, 1, 40, 63, 64, 130], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "array", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VArray3", declared: &[2, 63, 190, 191, 256], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "array", ver: 3, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VArrayX1", declared: &[0, 1, 40], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "array", ver: 1, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VArrayX2", declared: &[0, 1, 40, 63, 64, 130], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "array", ver: 2, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VArrayX3", declared: &[2, 63, 190, 191, 256], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "array", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VDef1", declared: &[0, 5], ser: SerKind::U8, deny: false, ops: true, repr_bits: 0, fam: "def", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VDef2", declared: &[0, 5, 12], ser: SerKind::U16, deny: false, ops: true, repr_bits: 0, fam: "def", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VDef3", declared: &[0, 5, 12, 50], ser: SerKind::U64, deny: false, ops: true, repr_bits: 0, fam: "def", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VDef4", declared: &[5, 12, 50, 100], ser: SerKind::U128, deny: false, ops: true, repr_bits: 0, fam: "def", ver: 4, group: Group::Ver },
    ShapeMeta { name: "VDefX1", declared: &[0, 5], ser: SerKind::U8, deny: true, ops: true, repr_bits: 0, fam: "def", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VDefX2", declared: &[0, 5, 12], ser: SerKind::U16, deny: true, ops: true, repr_bits: 0, fam: "def", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VDefX3", declared: &[0, 5, 12, 50], ser: SerKind::U64, deny: true, ops: true, repr_bits: 0, fam: "def", ver: 3, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VDefX4", declared: &[5, 12, 50, 100], ser: SerKind::U128, deny: true, ops: true, repr_bits: 0, fam: "def", ver: 4, group: Group::Ver },
    ShapeMeta { name: "VDefarr1", declared: &[0, 130], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "defarr", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VDefarr2", declared: &[0, 64, 130, 191], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "defarr", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VDefarr3", declared: &[64, 191, 192, 500], ser: SerKind::Array, deny: false, ops: true, repr_bits: 0, fam: "defarr", ver: 3, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VDefarrX1", declared: &[0, 130], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "defarr", ver: 1, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VDefarrX2", declared: &[0, 64, 130, 191], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "defarr", ver: 2, group: Group::Ver },
    #[cfg(feature = "deny_array_shapes")]
    ShapeMeta { name: "VDefarrX3", declared: &[64, 191, 192, 500], ser: SerKind::Array, deny: true, ops: true, repr_bits: 0, fam: "defarr", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VList1", declared: &[0, 1, 2], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "list", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VList2", declared: &[0, 1, 2, 3, 70], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "list", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VList3", declared: &[2, 3, 70, 140], ser: SerKind::List, deny: false, ops: true, repr_bits: 0, fam: "list", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VListX1", declared: &[0, 1, 2], ser: SerKind::List, deny: true, ops: true, repr_bits: 0, fam: "list", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VListX2", declared: &[0, 1, 2, 3, 70], ser: SerKind::List, deny: true, ops: true, repr_bits: 0, fam: "list", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VListX3", declared: &[2, 3, 70, 140], ser: SerKind::List, deny: true, ops: true, repr_bits: 0, fam: "list", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VMap1", declared: &[0, 1, 2], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "map", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VMap2", declared: &[0, 1, 2, 3, 70], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "map", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VMap3", declared: &[2, 3, 70, 140], ser: SerKind::Map, deny: false, ops: true, repr_bits: 0, fam: "map", ver: 3, group: Group::Ver },
    ShapeMeta { name: "VMapX1", declared: &[0, 1, 2], ser: SerKind::Map, deny: true, ops: true, repr_bits: 0, fam: "map", ver: 1, group: Group::Ver },
    ShapeMeta { name: "VMapX2", declared: &[0, 1, 2, 3, 70], ser: SerKind::Map, deny: true, ops: true, repr_bits: 0, fam: "map", ver: 2, group: Group::Ver },
    ShapeMeta { name: "VMapX3", declared: &[2, 3, 70, 140], ser: SerKind::Map, deny: true, ops: true, repr_bits: 0, fam: "map", ver: 3, group: Group::Ver },
];
#[macro_export]
macro_rules! for_core_shapes { ($m:ident) => { $crate::gated_core!{$m Empty D1 D2 D3 D7 D8 D9 D15 D16 D17 D24 D31 D32 D33 D48 D63 D64 D65 D100 D127 D128 D129 D160 D192 D193 D256 D257 D300 One5 One7 One8 One15 One31 One32 One62 One63 One64 One127 One128 One200 Sp7 Sp8 Sp16 Sp32 Sp33 Sp63 Sp64 Sp65 SpHi Sp127 Sp128 SpEdge SpGiant SpGap Sp4095 Ooo Desc Mixed MixHex Lits Named Wide9 Words Big Raw R8 R8s R16 R16f R16s R32 R32f R32s R64 R64f R64s R128 R128f R128s R128m R128lo R128hi R8one REmpty A1 A8 A63 A64 A65 A128 A130 Ru8 Ru8d Ru16 Ru32 Ru64 Rusize Ri8 Ri16 Ri32 Ri64 Risize Rc Rc2 RRust NoOps NoOpsArr NoSuper NoBoth} } }
#[cfg(feature = "deny_array_shapes")]
#[macro_export]
macro_rules! gated_core { ($m:ident $($t:ident)*) => { $m!{$($t)* } } }
#[cfg(not(feature = "deny_array_shapes"))]
#[macro_export]
macro_rules! gated_core { ($m:ident $($t:ident)*) => { $m!{$($t)*} } }
#[macro_export]
macro_rules! for_ser_shapes { ($m:ident) => { $crate::gated_ser!{$m SU8 SU8Few SU16 SU16Few SU32 SU32Few SU64 SU64Few SU128 SU128Few SDef8 SDef16 SDef32 SDef64 SDef128 SDef200 SDef256 SDef700 SArr SArr64 SArr128 SArr300 SArrR16 SArrR128 SArrA SIntA SIntA64 SIntA128 SR32as64 SR128as8 SR64as128 SR8as32 SList SMap SU8X SU8FewX SU8FullX SU16X SU16FewX SU16FullX SU32X SU32FewX SU32FullX SU64X SU64FewX SU64FullX SU128FewX SDef8X SDef16X SDef32X SDef64X SR32as64X SR128as8X SR64as128X SR8as32X SListX SMapX SList200 SMap200 SListD70 SMapD70 SListR SMapA SListNoOps SMapNoOps SNoSuper SEmpty SLegList SLegMap SLegBoth SArr1500 SArrGap SListWide SMapWide SBig SOoo SOooX SMax7 SMax8 SMax15 SMax16 SMax31 SMax32 SMax63 SMax64 SMax127 SMax128 SOne0 SOne9 SOne64 SOne300 SOneList SOneMap} } }
#[cfg(feature = "deny_array_shapes")]
#[macro_export]
macro_rules! gated_ser { ($m:ident $($t:ident)*) => { $m!{$($t)* SU128X SU128FullX SDef128X SDef200X SDef256X SDef700X SArrX SArr64X SArr128X SArr300X SArrR16X SArrR128X SArrAX SIntAX SIntA64X SIntA128X SArrGapX} } }
#[cfg(not(feature = "deny_array_shapes"))]
#[macro_export]
macro_rules! gated_ser { ($m:ident $($t:ident)*) => { $m!{$($t)*} } }
#[macro_export]
macro_rules! for_ver_shapes { ($m:ident) => { $crate::gated_ver!{$m VU81 VU82 VU83 VU8X1 VU8X2 VU8X3 VU161 VU162 VU163 VU16X1 VU16X2 VU16X3 VU321 VU322 VU323 VU32X1 VU32X2 VU32X3 VU641 VU642 VU643 VU64X1 VU64X2 VU64X3 VU1281 VU1282 VU1283 VArray1 VArray2 VArray3 VDef1 VDef2 VDef3 VDef4 VDefX1 VDefX2 VDefX3 VDefarr1 VDefarr2 VDefarr3 VList1 VList2 VList3 VListX1 VListX2 VListX3 VMap1 VMap2 VMap3 VMapX1 VMapX2 VMapX3} } }
#[cfg(feature = "deny_array_shapes")]
#[macro_export]
macro_rules! gated_ver { ($m:ident $($t:ident)*) => { $m!{$($t)* VU128X1 VU128X2 VU128X3 VArrayX1 VArrayX2 VArrayX3 VDefX4 VDefarrX1 VDefarrX2 VDefarrX3} } }
#[cfg(not(feature = "deny_array_shapes"))]
#[macro_export]
macro_rules! gated_ver { ($m:ident $($t:ident)*) => { $m!{$($t)*} } }
