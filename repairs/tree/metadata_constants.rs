

pub const FIELD_TYPE : u16 = 2;
pub const COMPONENT_DESC : u16 = 3;
pub const COMPONENT_NAME : u16 = 16;
pub const CREATOR_ACCOUNT_NAME : u16 = 129;
pub const CREATOR_USER_NAME : u16 = 130;
