//! The step codes of the format and the steps they stand for.
#![allow(dead_code)]
/// step by code; empty where the format has none
pub const STEPS: [&str; 256] = [
    "", "PerformScript", "", "SaveACopyAsXml", "GoToNextField", "GoToPreviousField", "GoToLayout", "NewRecordRequest",
    "DuplicateRecordRequest", "DeleteRecordRequest", "DeleteAllRecords", "InsertFromIndex", "InsertFromLastVisited", "InsertCurrentDate", "InsertCurrentTime", "",
    "GoToRecordRequestPage", "GoToField", "CheckSelection", "CheckRecord", "CheckFoundSet", "UnsortRecords", "EnterFindMode", "ShowAllRecords",
    "ModifyLastFind", "OmitRecord", "OmitMultipleRecords", "ShowOm*", "PerformFind", "ShowHideToolbars", "ViewAs", "AdjustWindow",
    "OpenHelp", "OpenFile", "CloseFile", "ImportRecords", "ExportRecords", "SaveACopyAs", "OpenManageDatabase", "SortRecords",
    "RelookupFieldContents", "EnterPreviewMode", "PrintSetup", "Print", "ExitApplication", "UndoRedo", "Cut", "Copy",
    "Paste", "Clear", "SelectAll", "RevertRecordRequest", "", "", "", "EnterBrow*",
    "InsertPicture", "SendEvent", "", "", "InsertCurrentUserName", "InsertText", "PauseResumeScript", "SendMail",
    "SendDdeExecute", "DialPhone", "Speak", "PerformApplescript", "If", "Else", "EndIf", "Loop",
    "ExitLoopIf", "EndLoop", "GoToRelatedRecord", "CommitRecordsRequests", "SetField", "InsertCalculatedResult", "", "FreezeWindow",
    "RefreshWindow", "ScrollWindow", "NewFile", "ChangePassword", "SetMultiUser", "AllowUserAbort", "SetErrorCapture", "ShowCustomDialog",
    "OpenScriptWorkspace", "BlankLineComment", "HaltScript", "ReplaceFieldContents", "ShowHideTextRuler", "Beep", "SetUseSystemFormats", "RecoverFile",
    "SaveACopyAsAddOnPackage", "SetZoomLevel", "CopyAllRecordsRequests", "GoToPortalRow", "", "CopyRecordRequest", "Flu*", "ExitScript",
    "DeletePortalRow", "OpenPreferences", "CorrectWord", "SpellingOptions", "SelectDictionaries", "EditUserDictionary", "", "OpenUrl",
    "OpenManageValueLists", "OpenSharing", "OpenFileOptions", "AllowFormattingBar", "SetNextSerialValue", "ExecuteSql", "OpenHosts", "MoveResizeWindow",
    "ArrangeAllWindows", "CloseWindow", "NewWindow", "SelectWindow", "SetWindowTitle", "ElseIf", "ConstrainFoundSet", "ExtendFoundSet",
    "PerformFindReplace", "OpenFindReplace", "SetSelection", "InsertFile", "ExportFieldContents", "OpenRecordRequest", "AddAccount", "DeleteAccount",
    "ResetAccountPassword", "EnableAccount", "Relogin", "ConvertFile", "OpenManageDataSources", "SetVariable", "InstallMenuSet", "SaveRecordsAsExcel",
    "SaveRecordsAsPdf", "GoToObject", "SetWebViewer", "SetFieldByName", "InstallOntimerScript", "OpenEditSavedFinds", "PerformQuickFind", "OpenManageLayouts",
    "SaveRecordsAsSnapshotLink", "", "SortRecordsByField", "FindMatchingRecords", "ManageContainers", "InstallPluginFile", "InsertPdf", "InsertAudioVideo",
    "InsertFromUrl", "InsertFromDevice", "", "", "PerformScriptOnServer", "OpenManageThemes", "ShowHideMenubar", "RefreshObject",
    "SetLayoutObjectAnimation", "ClosePopover", "", "", "OpenUploadToHost", "", "EnableTouchKeyboard", "PerformJavascriptInWebViewer",
    "CommentedOut", "AvplayerPlay", "AvplayerSetPlaybackState", "AvplayerSetOptions", "RefreshPortal", "GetFolderPath", "TruncateTable", "OpenFavorites",
    "", "ConfigureRegionMonitorScript", "", "ConfigureLocalNotification", "GetFileExists", "GetFileSize", "CreateDataFile", "OpenDataFile",
    "WriteToDataFile", "ReadFromDataFile", "GetDataFilePosition", "SetDataFilePosition", "CloseDataFile", "DeleteFile", "", "RenameFile",
    "SetErrorLogging", "ConfigureNfcReading", "ConfigureMachineLearningModel", "ExecuteFilemakerDataApi", "", "OpenTransaction", "CommitTransaction", "RevertTransaction",
    "SetSessionIdentifier", "SetDictionary", "PerformScriptOnServerWithCallback", "TriggerClarisConnectFlow", "", "", "", "",
    "", "", "", "", "", "", "", "",
    "", "", "", "", "", "", "", "",
    "", "", "", "", "", "", "", "",
    "", "", "", "", "", "", "", "",
    "", "", "", "", "", "", "", "Assert",
];
use crate::fm_script_engine::fm_script_engine_instructions::Instruction;
/// is this the step the format has for the code
pub fn is_step(i: &Instruction, code: u8) -> bool {
    let n = STEPS[code as usize];
    let g = format!("{:?}", i);
    if let Some(p) = n.strip_suffix('*') { g.starts_with(p) } else { !n.is_empty() && g == n }
}
