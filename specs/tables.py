"""The names of the format: the specification's own copy of every value-to-name table (data only).

Written down once from the documented constants of Process Monitor and Windows; nothing here is read from the code under
test, so a change to a table there is a difference from this one.
"""

EVENT_CLASS = {
    0x0: 'Unknown',
    0x1: 'Process',
    0x2: 'Registry',
    0x3: 'File_System',
    0x4: 'Profiling',
    0x5: 'Network',
}

PROCESS_OPERATION = {
    0x0: 'Process_Defined',
    0x1: 'Process_Create',
    0x2: 'Process_Exit',
    0x3: 'Thread_Create',
    0x4: 'Thread_Exit',
    0x5: 'Load_Image',
    0x6: 'Thread_Profile',
    0x7: 'Process_Start',
    0x8: 'Process_Statistics',
    0x9: 'System_Statistics',
}

REGISTRY_OPERATION = {
    0x0: 'RegOpenKey',
    0x1: 'RegCreateKey',
    0x2: 'RegCloseKey',
    0x3: 'RegQueryKey',
    0x4: 'RegSetValue',
    0x5: 'RegQueryValue',
    0x6: 'RegEnumValue',
    0x7: 'RegEnumKey',
    0x8: 'RegSetInfoKey',
    0x9: 'RegDeleteKey',
    0xa: 'RegDeleteValue',
    0xb: 'RegFlushKey',
    0xc: 'RegLoadKey',
    0xd: 'RegUnloadKey',
    0xe: 'RegRenameKey',
    0xf: 'RegQueryMultipleValueKey',
    0x10: 'RegSetKeySecurity',
    0x11: 'RegQueryKeySecurity',
}

FILE_OPERATION = {
    0x0: 'VolumeDismount',
    0x1: 'VolumeMount',
    0x2: 'FASTIO_MDL_WRITE_COMPLETE',
    0x3: 'WriteFile2',
    0x4: 'FASTIO_MDL_READ_COMPLETE',
    0x5: 'ReadFile2',
    0x6: 'QueryOpen',
    0x7: 'FASTIO_CHECK_IF_POSSIBLE',
    0x8: 'IRP_MJ_12',
    0x9: 'IRP_MJ_11',
    0xa: 'IRP_MJ_10',
    0xb: 'IRP_MJ_9',
    0xc: 'IRP_MJ_8',
    0xd: 'FASTIO_NOTIFY_STREAM_FO_CREATION',
    0xe: 'FASTIO_RELEASE_FOR_CC_FLUSH',
    0xf: 'FASTIO_ACQUIRE_FOR_CC_FLUSH',
    0x10: 'FASTIO_RELEASE_FOR_MOD_WRITE',
    0x11: 'FASTIO_ACQUIRE_FOR_MOD_WRITE',
    0x12: 'FASTIO_RELEASE_FOR_SECTION_SYNCHRONIZATION',
    0x13: 'CreateFileMapping',
    0x14: 'CreateFile',
    0x15: 'CreatePipe',
    0x16: 'IRP_MJ_CLOSE',
    0x17: 'ReadFile',
    0x18: 'WriteFile',
    0x19: 'QueryInformationFile',
    0x1a: 'SetInformationFile',
    0x1b: 'QueryEAFile',
    0x1c: 'SetEAFile',
    0x1d: 'FlushBuffersFile',
    0x1e: 'QueryVolumeInformation',
    0x1f: 'SetVolumeInformation',
    0x20: 'DirectoryControl',
    0x21: 'FileSystemControl',
    0x22: 'DeviceIoControl',
    0x23: 'InternalDeviceIoControl',
    0x24: 'Shutdown',
    0x25: 'LockUnlockFile',
    0x26: 'CloseFile',
    0x27: 'CreateMailSlot',
    0x28: 'QuerySecurityFile',
    0x29: 'SetSecurityFile',
    0x2a: 'Power',
    0x2b: 'SystemControl',
    0x2c: 'DeviceChange',
    0x2d: 'QueryFileQuota',
    0x2e: 'SetFileQuota',
    0x2f: 'PlugAndPlay',
}

PROFILING_OPERATION = {
    0x0: 'Thread_Profiling',
    0x1: 'Process_Profiling',
    0x2: 'Debug_Output_Profiling',
}

NETWORK_OPERATION = {
    0x0: 'Unknown',
    0x1: 'Other',
    0x2: 'Send',
    0x3: 'Receive',
    0x4: 'Accept',
    0x5: 'Connect',
    0x6: 'Disconnect',
    0x7: 'Reconnect',
    0x8: 'Retransmit',
    0x9: 'TCPCopy',
}

# sub-operations, by file operation
SUB_OPERATION = {
    0x1e: {  # QueryVolumeInformation
        0x1: 'QueryInformationVolume',
        0x2: 'QueryLabelInformationVolume',
        0x3: 'QuerySizeInformationVolume',
        0x4: 'QueryDeviceInformationVolume',
        0x5: 'QueryAttributeInformationVolume',
        0x6: 'QueryControlInformationVolume',
        0x7: 'QueryFullSizeInformationVolume',
        0x8: 'QueryObjectIdInformationVolume',
    },
    0x1f: {  # SetVolumeInformation
        0x1: 'SetControlInformationVolume',
        0x2: 'SetLabelInformationVolume',
        0x8: 'SetObjectIdInformationVolume',
    },
    0x19: {  # QueryInformationFile
        0x4: 'QueryBasicInformationFile',
        0x5: 'QueryStandardInformationFile',
        0x6: 'QueryFileInternalInformationFile',
        0x7: 'QueryEaInformationFile',
        0x9: 'QueryNameInformationFile',
        0xe: 'QueryPositionInformationFile',
        0x12: 'QueryAllInformationFile',
        0x14: 'QueryEndOfFile',
        0x16: 'QueryStreamInformationFile',
        0x1c: 'QueryCompressionInformationFile',
        0x1d: 'QueryId',
        0x1f: 'QueryMoveClusterInformationFile',
        0x22: 'QueryNetworkOpenInformationFile',
        0x23: 'QueryAttributeTagFile',
        0x25: 'QueryIdBothDirectory',
        0x27: 'QueryValidDataLength',
        0x28: 'QueryShortNameInformationFile',
        0x2b: 'QueryIoPiorityHint',
        0x2e: 'QueryLinks',
        0x30: 'QueryNormalizedNameInformationFile',
        0x31: 'QueryNetworkPhysicalNameInformationFile',
        0x32: 'QueryIdGlobalTxDirectoryInformation',
        0x33: 'QueryIsRemoteDeviceInformation',
        0x34: 'QueryAttributeCacheInformation',
        0x35: 'QueryNumaNodeInformation',
        0x36: 'QueryStandardLinkInformation',
        0x37: 'QueryRemoteProtocolInformation',
        0x38: 'QueryRenameInformationBypassAccessCheck',
        0x39: 'QueryLinkInformationBypassAccessCheck',
        0x3a: 'QueryVolumeNameInformation',
        0x3b: 'QueryIdInformation',
        0x3c: 'QueryIdExtdDirectoryInformation',
        0x3e: 'QueryHardLinkFullIdInformation',
        0x3f: 'QueryIdExtdBothDirectoryInformation',
        0x43: 'QueryDesiredStorageClassInformation',
        0x44: 'QueryStatInformation',
        0x45: 'QueryMemoryPartitionInformation',
        0x46: 'QuerySatLxInformation',
        0x47: 'QueryCaseSensitiveInformation',
        0x48: 'QueryLinkInformationEx',
        0x49: 'QueryLinkInfomraitonBypassAccessCheck',
        0x4a: 'QueryStorageReservedIdInformation',
        0x4b: 'QueryCaseSensitiveInformationForceAccessCheck',
    },
    0x1a: {  # SetInformationFile
        0x4: 'SetBasicInformationFile',
        0xa: 'SetRenameInformationFile',
        0xb: 'SetLinkInformationFile',
        0xd: 'SetDispositionInformationFile',
        0xe: 'SetPositionInformationFile',
        0x13: 'SetAllocationInformationFile',
        0x14: 'SetEndOfFileInformationFile',
        0x16: 'SetFileStreamInformation',
        0x17: 'SetPipeInformation',
        0x27: 'SetValidDataLengthInformationFile',
        0x28: 'SetShortNameInformation',
        0x3d: 'SetReplaceCompletionInformation',
        0x40: 'SetDispositionInformationEx',
        0x41: 'SetRenameInformationEx',
        0x42: 'SetRenameInformationExBypassAccessCheck',
        0x4a: 'SetStorageReservedIdInformation',
    },
    0x20: {  # DirectoryControl
        0x1: 'QueryDirectory',
        0x2: 'NotifyChangeDirectory',
    },
    0x2f: {  # PlugAndPlay
        0x0: 'StartDevice',
        0x1: 'QueryRemoveDevice',
        0x2: 'RemoveDevice',
        0x3: 'CancelRemoveDevice',
        0x4: 'StopDevice',
        0x5: 'QueryStopDevice',
        0x6: 'CancelStopDevice',
        0x7: 'QueryDeviceRelations',
        0x8: 'QueryInterface',
        0x9: 'QueryCapabilities',
        0xa: 'QueryResources',
        0xb: 'QueryResourceRequirements',
        0xc: 'QueryDeviceText',
        0xd: 'FilterResourceRequirements',
        0xf: 'ReadConfig',
        0x10: 'WriteConfig',
        0x11: 'Eject',
        0x12: 'SetLock',
        0x13: 'QueryId2',
        0x14: 'QueryPnpDeviceState',
        0x15: 'QueryBusInformation',
        0x16: 'DeviceUsageNotification',
        0x17: 'SurpriseRemoval',
        0x18: 'QueryLegacyBusInformation',
    },
    0x25: {  # LockUnlockFile
        0x1: 'LockFile',
        0x2: 'UnlockFileSingle',
        0x3: 'UnlockFileAll',
        0x4: 'UnlockFileByKey',
    },
}

RESULT = {
    0x0: 'SUCCESS',
    0x103: '',
    0x104: 'REPARSE',
    0x105: 'MORE ENTRIES',
    0x108: 'OPLOCK BREAK IN PROGRESS',
    0x10b: 'NOTIFY CLEANUP',
    0x10c: 'NOTIFY ENUM DIR',
    0x12a: 'FILE LOCKED WITH ONLY READERS',
    0x12b: 'FILE LOCKED WITH WRITERS',
    0x215: 'OPLOCK SWITCHED TO NEW HANDLE',
    0x216: 'OPLOCK HANDLE CLOSED',
    0x367: 'WAIT FOR OPLOCK',
    0x40000016: 'PREDEFINED HANDLE',
    0xc0000001: 'UNSUCCESSFUL',
    0x80000015: 'INVALID EA FLAG',
    0x80000002: 'DATATYPE MISALIGNMENT',
    0x80000005: 'BUFFER OVERFLOW',
    0x80000006: 'NO MORE FILES',
    0x8000001a: 'NO MORE ENTRIES',
    0xc0000101: 'NOT EMPTY',
    0xc0000002: 'NOT IMPLEMENTED',
    0xc0000003: 'INVALID INFO CLASS',
    0xc0000004: 'INFO LENGTH MISMATCH',
    0xc0000005: 'ACCESS VIOLATION',
    0xc0000006: 'IN PAGE ERROR',
    0xc0000008: 'INVALID HANDLE',
    0xc000000d: 'INVALID PARAMETER',
    0xc000000e: 'NO SUCH DEVICE',
    0xc000000f: 'NO SUCH FILE',
    0xc0000010: 'INVALID DEVICE REQUEST',
    0xc0000011: 'END OF FILE',
    0xc0000012: 'WRONG VOLUME',
    0xc0000013: 'NO MEDIA',
    0xc0000015: 'NONEXISTENT SECTOR',
    0xc0000017: 'NO MEMORY',
    0xc0000021: 'ALREADY COMMITED',
    0xc0000022: 'ACCESS DENIED',
    0xc0000023: 'BUFFER TOO SMALL',
    0xc0000024: 'OBJECT TYPE MISMATCH',
    0xc0000032: 'DISK CORRUPT',
    0xc0000033: 'NAME INVALID',
    0xc0000034: 'NAME NOT FOUND',
    0xc0000035: 'NAME COLLISION',
    0xc0000039: 'OBJECT PATH INVALID',
    0xc000003a: 'PATH NOT FOUND',
    0xc000003b: 'PATH SYNTAX BAD',
    0xc000003c: 'DATA OVERRUN',
    0xc000003f: 'CRC ERROR',
    0xc0000043: 'SHARING VIOLATION',
    0xc0000044: 'QUOTA EXCEEDED',
    0xc000004f: 'EAS NOT SUPPORTED',
    0xc0000050: 'EA TOO LARGE',
    0xc0000051: 'NONEXISTENT EA ENTRY',
    0xc0000052: 'NO EAS ON FILE',
    0xc0000053: 'EA CORRUPTED ERROR',
    0xc0000054: 'FILE LOCK CONFLICT',
    0xc0000055: 'NOT GRANTED',
    0xc0000056: 'DELETE PENDING',
    0xc0000061: 'PRIVILEGE NOT HELD',
    0xc000006d: 'LOGON FAILURE',
    0xc000007e: 'RANGE NOT LOCKED',
    0xc000007f: 'DISK FULL',
    0xc0000098: 'FILE INVALID',
    0xc000009a: 'INSUFFICIENT RESOURCES',
    0xc000009c: 'DEVICE DATA ERROR',
    0xc000009d: 'DEVICE NOT CONNECTED',
    0xc00000a2: 'MEDIA WRITE PROTECTED',
    0xc00000a5: 'BAD IMPERSONATION',
    0xc00000ab: 'INSTANCE NOT AVAILABLE',
    0xc00000ac: 'PIPE NOT AVAILABLE',
    0xc00000ad: 'INVALID PIPE STATE',
    0xc00000ae: 'PIPE BUSY',
    0xc00000b0: 'PIPE DISCONNECTED',
    0xc00000b1: 'PIPE CLOSING',
    0xc00000b2: 'PIPE CONNECTED',
    0xc00000b3: 'PIPE LISTENING',
    0xc00000b4: 'INVALID READ MODE',
    0xc00000b5: 'IO TIMEOUT',
    0xc00000ba: 'IS DIRECTORY',
    0xc00000bb: 'NOT SUPPORTED',
    0xc00000bd: 'DUPLICATE NAME',
    0xc00000be: 'BAD NETWORK PATH',
    0xc00000c1: 'BAD NETWORK PATH',
    0xc00000c3: 'INVALID NETWORK RESPONSE',
    0xc00000c4: 'NETWORK ERROR',
    0xc00000cc: 'BAD NETWORK NAME',
    0xc00000d4: 'BAD NETWORK NAME',
    0xc00000d8: 'CANT WAIT',
    0xc00000d9: 'PIPE EMPTY',
    0xc00000db: 'CSC OBJECT PATH NOT FOUND',
    0xc00000e2: 'OPLOCK NOT GRANTED',
    0xc00000ef: 'INVALID PARAMETER 1',
    0xc00000f0: 'INVALID PARAMETER 2',
    0xc00000f1: 'INVALID PARAMETER 3',
    0xc00000f2: 'INVALID PARAMETER 4',
    0xc00000fb: 'REDIRECTOR NOT STARTED',
    0xc0000102: 'FILE CORRUPT',
    0xc0000103: 'NOT A DIRECTORY',
    0xc0000107: 'FILES OPEN',
    0xc000010d: 'CANNOT IMPERSONATE',
    0xc0000120: 'CANCELLED',
    0xc0000121: 'CANNOT DELETE',
    0xc0000123: 'FILE DELETED',
    0xc0000128: 'FILE CLOSED',
    0xc000012a: 'THREAD NOT IN PROCESS',
    0xc0000148: 'INVALID LEVEL',
    0xc000014b: 'PIPE BROKEN',
    0xc000014c: 'REGISTRY CORRUPT',
    0xc000014d: 'IO FAILED',
    0xc000017c: 'KEY DELETED',
    0xc0000181: 'CHILD MUST BE VOLATILE',
    0xc0000184: 'INVALID DEVICE STATE',
    0xc0000185: 'IO DEVICE ERROR',
    0xc0000188: 'LOG FILE FULL',
    0xc000019c: 'FS DRIVER REQUIRED',
    0xc0000205: 'INSUFFICIENT SERVER RESOURCES',
    0xc0000207: 'INVALID ADDRESS COMPONENT',
    0xc000020c: 'DISCONNECTED',
    0xc0000225: 'NOT FOUND',
    0xc0000243: 'USER MAPPED FILE',
    0xc0000248: 'LOGIN WKSTA RESTRICTION',
    0xc0000257: 'PATH NOT COVERED',
    0xc000026d: 'DFS UNAVAILABLE',
    0xc0000273: 'NO MORE MATCHES',
    0xc0000275: 'NOT REPARSE POINT',
    0xc00002ea: 'CANNOT MAKE',
    0xc00002f0: 'OBJECTID NOT FOUND',
    0xc0000388: 'DOWNGRADE DETECTED',
    0xc0190044: 'CANNOT EXECUTE FILE IN TRANSACTION',
    0xc0000425: 'HIVE UNLOADED',
    0xc0000427: 'FILE SYSTEM LIMITATION',
    0xc0000463: 'DEVICE FEATURE NOT SUPPORTED',
    0xc000046d: 'OBJECT NOT EXTERNALLY BACKED',
    0xc0000909: 'CANNOT BREAK OPLOCK',
    0xc000a2a1: 'STATUS_OFFLOAD_READ_FLT_NOT_SUPPORTED',
    0xc000a2a2: 'STATUS_OFFLOAD_WRITE_FLT_NOT_SUPPORTED',
    0xc0190001: 'TRANSACTIONAL CONFLICT',
    0xc0190002: 'INVALID TRANSACTION',
    0xc0190003: 'TRANSACTION_NOT_ACTIVE',
    0xc019003e: 'EFS NOT ALLOWED IN TRANSACTION',
    0xc019003f: 'TRANSACTIONAL OPEN NOT ALLOWED',
    0xc0190040: 'TRANSACTED MAPPING UNSUPPORTED REMOTE',
    0xc000a2a3: 'OFFLOAD READ FILE NOT SUPPORTED',
    0xc000a2a4: 'OFFLOAD READ FILE NOT SUPPORTED',
    0xc0190049: 'SPARSE NOT ALLOWED IN TRANSACTION',
    0xc01c0004: 'FAST IO DISALLOWED',
}

IOCTL = {
    0x24058: 'IOCTL_CDROM_GET_CONFIGURATION',
    0x24800: 'IOCTL_CDROM_CHECK_VERIFY',
    0x24804: 'IOCTL_CDROM_MEDIA_REMOVAL',
    0x24808: 'IOCTL_CDROM_EJECT_MEDIA',
    0x2480c: 'IOCTL_CDROM_LOAD_MEDIA',
    0x41018: 'IOCTL_SCSI_GET_ADDRESS',
    0x41020: 'IOCTL_SCSI_GET_DUMP_POINTERS',
    0x41024: 'IOCTL_SCSI_FREE_DUMP_POINTERS',
    0x4d004: 'IOCTL_SCSI_PASS_THROUGH',
    0x4d014: 'IOCTL_SCSI_PASS_THROUGH_DIRECT',
    0x60198: 'FSCTL_DFS_REPORT_INCONSISTENCY',
    0x60190: 'FSCTL_DFS_TRANSLATE_PATH',
    0x60194: 'FSCTL_DFS_GET_REFERRALS',
    0x6019c: 'FSCTL_DFS_IS_SHARE_IN_DFS',
    0x601a0: 'FSCTL_DFS_IS_ROOT',
    0x601a4: 'FSCTL_DFS_GET_VERSION',
    0x70000: 'IOCTL_DISK_GET_DRIVE_GEOMETRY',
    0x70014: 'IOCTL_DISK_VERIFY',
    0x70020: 'IOCTL_DISK_PERFORMANCE',
    0x70024: 'IOCTL_DISK_IS_WRITABLE',
    0x70028: 'IOCTL_DISK_LOGGING',
    0x70030: 'IOCTL_DISK_HISTOGRAM_STRUCTURE',
    0x70034: 'IOCTL_DISK_HISTOGRAM_DATA',
    0x70038: 'IOCTL_DISK_HISTOGRAM_RESET',
    0x7003c: 'IOCTL_DISK_REQUEST_STRUCTURE',
    0x70040: 'IOCTL_DISK_REQUEST_DATA',
    0x70048: 'IOCTL_DISK_GET_PARTITION_INFO_EX',
    0x70050: 'IOCTL_DISK_GET_DRIVE_LAYOUT_EX',
    0x70060: 'IOCTL_DISK_PERFORMANCE_OFF',
    0x700a0: 'IOCTL_DISK_GET_DRIVE_GEOMETRY_EX',
    0x700f0: 'IOCTL_DISK_GET_DISK_ATTRIBUTES',
    0x70140: 'IOCTL_DISK_UPDATE_PROPERTIES',
    0x70214: 'IOCTL_DISK_GET_CLUSTER_INFO',
    0x70c00: 'IOCTL_DISK_GET_MEDIA_TYPES',
    0x74004: 'IOCTL_DISK_GET_PARTITION_INFO',
    0x7400c: 'IOCTL_DISK_GET_DRIVE_LAYOUT',
    0x7405c: 'IOCTL_DISK_GET_LENGTH_INFO',
    0x74080: 'SMART_GET_VERSION',
    0x740d4: 'IOCTL_DISK_GET_CACHE_INFORMATION',
    0x74800: 'IOCTL_DISK_CHECK_VERIFY',
    0x74804: 'IOCTL_DISK_MEDIA_REMOVAL',
    0x74808: 'IOCTL_DISK_EJECT_MEDIA',
    0x7480c: 'IOCTL_DISK_LOAD_MEDIA',
    0x74810: 'IOCTL_DISK_RESERVE',
    0x74814: 'IOCTL_DISK_RELEASE',
    0x74818: 'IOCTL_DISK_FIND_NEW_DEVICES',
    0x7c008: 'IOCTL_DISK_SET_PARTITION_INFO',
    0x7c010: 'IOCTL_DISK_SET_DRIVE_LAYOUT',
    0x7c018: 'IOCTL_DISK_FORMAT_TRACKS',
    0x7c01c: 'IOCTL_DISK_REASSIGN_BLOCKS',
    0x7c02c: 'IOCTL_DISK_FORMAT_TRACKS_EX',
    0x7c04c: 'IOCTL_DISK_SET_PARTITION_INFO_EX',
    0x7c054: 'IOCTL_DISK_SET_DRIVE_LAYOUT_EX',
    0x7c058: 'IOCTL_DISK_CREATE_DISK',
    0x7c084: 'SMART_SEND_DRIVE_COMMAND',
    0x7c088: 'SMART_RCV_DRIVE_DATA',
    0x7c0a4: 'IOCTL_DISK_REASSIGN_BLOCKS_EX',
    0x7c0c8: 'IOCTL_DISK_UPDATE_DRIVE_SIZE',
    0x7c0d0: 'IOCTL_DISK_GROW_PARTITION',
    0x7c0d8: 'IOCTL_DISK_SET_CACHE_INFORMATION',
    0x7c0f4: 'IOCTL_DISK_SET_DISK_ATTRIBUTES',
    0x7c218: 'IOCTL_DISK_SET_CLUSTER_INFO',
    0x90100: 'FSCTL_SIS_COPYFILE',
    0x90000: 'FSCTL_REQUEST_OPLOCK_LEVEL_1',
    0x90004: 'FSCTL_REQUEST_OPLOCK_LEVEL_2',
    0x90008: 'FSCTL_REQUEST_BATCH_OPLOCK',
    0x9000c: 'FSCTL_OPLOCK_BREAK_ACKNOWLEDGE',
    0x90010: 'FSCTL_OPBATCH_ACK_CLOSE_PENDING',
    0x90014: 'FSCTL_OPLOCK_BREAK_NOTIFY',
    0x90018: 'FSCTL_LOCK_VOLUME',
    0x9001c: 'FSCTL_UNLOCK_VOLUME',
    0x90020: 'FSCTL_DISMOUNT_VOLUME',
    0x90028: 'FSCTL_IS_VOLUME_MOUNTED',
    0x9002c: 'FSCTL_IS_PATHNAME_VALID',
    0x90030: 'FSCTL_MARK_VOLUME_DIRTY',
    0x9003b: 'FSCTL_QUERY_RETRIEVAL_POINTERS',
    0x9003c: 'FSCTL_GET_COMPRESSION',
    0x90050: 'FSCTL_OPLOCK_BREAK_ACK_NO_2',
    0x90058: 'FSCTL_QUERY_FAT_BPB',
    0x9005c: 'FSCTL_REQUEST_FILTER_OPLOCK',
    0x90060: 'FSCTL_FILESYSTEM_GET_STATISTICS',
    0x90064: 'FSCTL_GET_NTFS_VOLUME_DATA',
    0x90068: 'FSCTL_GET_NTFS_FILE_RECORD',
    0x9006f: 'FSCTL_GET_VOLUME_BITMAP',
    0x90073: 'FSCTL_GET_RETRIEVAL_POINTERS',
    0x90074: 'FSCTL_MOVE_FILE',
    0x90078: 'FSCTL_IS_VOLUME_DIRTY',
    0x90083: 'FSCTL_ALLOW_EXTENDED_DASD_IO',
    0x90087: 'FSCTL_READ_PROPERTY_DATA',
    0x9008b: 'FSCTL_WRITE_PROPERTY_DATA',
    0x9008f: 'FSCTL_FIND_FILES_BY_SID',
    0x90097: 'FSCTL_DUMP_PROPERTY_DATA',
    0x90098: 'FSCTL_SET_OBJECT_ID',
    0x9009c: 'FSCTL_GET_OBJECT_ID',
    0x900a0: 'FSCTL_DELETE_OBJECT_ID',
    0x900a4: 'FSCTL_SET_REPARSE_POINT',
    0x900a8: 'FSCTL_GET_REPARSE_POINT',
    0x900ac: 'FSCTL_DELETE_REPARSE_POINT',
    0x900b3: 'FSCTL_ENUM_USN_DATA',
    0x900bb: 'FSCTL_READ_USN_JOURNAL',
    0x900bc: 'FSCTL_SET_OBJECT_ID_EXTENDED',
    0x900c0: 'FSCTL_CREATE_OR_GET_OBJECT_ID',
    0x900c4: 'FSCTL_SET_SPARSE',
    0x900d7: 'FSCTL_SET_ENCRYPTION',
    0x900db: 'FSCTL_ENCRYPTION_FSCTL_IO',
    0x900df: 'FSCTL_WRITE_RAW_ENCRYPTED',
    0x900e3: 'FSCTL_READ_RAW_ENCRYPTED',
    0x900e7: 'FSCTL_CREATE_USN_JOURNAL',
    0x900eb: 'FSCTL_READ_FILE_USN_DATA',
    0x900ef: 'FSCTL_WRITE_USN_CLOSE_RECORD',
    0x900f0: 'FSCTL_EXTEND_VOLUME',
    0x900f4: 'FSCTL_QUERY_USN_JOURNAL',
    0x900f8: 'FSCTL_DELETE_USN_JOURNAL',
    0x900fc: 'FSCTL_MARK_HANDLE',
    0x90120: 'FSCTL_FILE_PREFETCH',
    0x901af: 'CSC_FSCTL_OPERATION_QUERY_HANDLE',
    0x901f0: 'FSCTL_QUERY_DEPENDENT_VOLUME',
    0x90230: 'FSCTL_GET_BOOT_AREA_INFO',
    0x90240: 'FSCTL_REQUEST_OPLOCK',
    0x90244: 'FSCTL_CSV_TUNNEL_REQUEST',
    0x9024c: 'FSCTL_QUERY_FILE_SYSTEM_RECOGNITION',
    0x90254: 'FSCTL_CSV_GET_VOLUME_NAME_FOR_VOLUME_MOUNT_POINT',
    0x90258: 'FSCTL_CSV_GET_VOLUME_PATH_NAMES_FOR_VOLUME_NAME',
    0x9025c: 'FSCTL_IS_FILE_ON_CSV_VOLUME',
    0x90260: 'FSCTL_CORRUPTION_HANDLING',
    0x90270: 'FSCTL_SET_PURGE_FAILURE_MODE',
    0x90277: 'FSCTL_QUERY_FILE_LAYOUT',
    0x90278: 'FSCTL_IS_VOLUME_OWNED_BYCSVFS',
    0x9027c: 'FSCTL_GET_INTEGRITY_INFORMATION',
    0x90284: 'FSCTL_QUERY_FILE_REGIONS',
    0x902b0: 'FSCTL_SCRUB_DATA',
    0x902b8: 'FSCTL_DISABLE_LOCAL_BUFFERING',
    0x9030c: 'FSCTL_SET_EXTERNAL_BACKING',
    0xc4003: 'FSCTL_MAILSLOT_PEEK',
    0x980d0: 'FSCTL_ENABLE_UPGRADE',
    0x941e4: 'FSCTL_TXFS_LIST_TRANSACTIONS',
    0x90310: 'FSCTL_GET_EXTERNAL_BACKING',
    0x940b7: 'FSCTL_SECURITY_ID_CHECK',
    0x940cf: 'FSCTL_QUERY_ALLOCATED_RANGES',
    0x94264: 'FSCTL_OFFLOAD_READ',
    0x980c8: 'FSCTL_SET_ZERO_DATA',
    0x9c104: 'FSCTL_SIS_LINK_FILES',
    0x98208: 'FSCTL_FILE_LEVEL_TRIM',
    0x98268: 'FSCTL_OFFLOAD_WRITE',
    0x9c040: 'FSCTL_SET_COMPRESSION',
    0x9c108: 'FSCTL_HSM_MSG',
    0x9c2b4: 'FSCTL_REPAIR_COPIES',
    0x110020: 'FSCTL_PIPE_SET_CLIENT_PROCESS',
    0x110000: 'FSCTL_PIPE_ASSIGN_EVENT',
    0x110004: 'FSCTL_PIPE_DISCONNECT',
    0x110008: 'FSCTL_PIPE_LISTEN',
    0x110010: 'FSCTL_PIPE_QUERY_EVENT',
    0x110018: 'FSCTL_PIPE_WAIT',
    0x11001c: 'FSCTL_PIPE_IMPERSONATE',
    0x119ff8: 'FSCTL_PIPE_INTERNAL_WRITE',
    0x110024: 'FSCTL_QUERY_CLIENT_PROCESS',
    0x11400c: 'FSCTL_PIPE_PEEK',
    0x116000: 'FSCTL_PIPE_INTERNAL_READ',
    0x11c017: 'FSCTL_PIPE_TRANSCEIVE',
    0x11dfff: 'FSCTL_PIPE_INTERNAL_TRANSCEIVE',
    0x140191: 'FSCTL_LMR_START',
    0x140193: 'IOCTL_SMBMRX_START',
    0x140194: 'FSCTL_LMR_STOP',
    0x140197: 'IOCTL_SMBMRX_STOP',
    0x140198: 'IOCTL_SMBMRX_GETSTATE',
    0x140199: 'FSCTL_NETWORK_SET_CONFIGURATION_INFO',
    0x14019e: 'FSCTL_NETWORK_GET_CONFIGURATION_INFO',
    0x1401a3: 'FSCTL_NETWORK_GET_CONNECTION_INFO',
    0x1401a7: 'FSCTL_NETWORK_ENUMERATE_CONNECTIONS',
    0x1401ab: 'FSCTL_LMR_FORCE_DISCONNECT',
    0x1401ac: 'FSCTL_NETWORK_DELETE_CONNECTION',
    0x1401b0: 'FSCTL_LMR_BIND_TO_TRANSPORT',
    0x1401b4: 'FSCTL_LMR_UNBIND_FROM_TRANSPORT',
    0x1401bb: 'FSCTL_LMR_ENUMERATE_TRANSPORTS',
    0x1401c4: 'FSCTL_LMR_GET_HINT_SIZE',
    0x1401c8: 'FSCTL_LMR_TRANSACT',
    0x1401cc: 'FSCTL_LMR_ENUMERATE_PRINT_INFO',
    0x1401d0: 'FSCTL_NETWORK_GET_STATISTICS',
    0x1401d4: 'FSCTL_LMR_START_SMBTRACE',
    0x1401d8: 'FSCTL_LMR_END_SMBTRACE',
    0x1401dc: 'FSCTL_LMR_START_RBR',
    0x1401e0: 'FSCTL_NETWORK_SET_DOMAIN_NAME',
    0x1401e4: 'FSCTL_LMR_SET_SERVER_GUID',
    0x1401e8: 'FSCTL_LMR_QUERY_TARGET_INFO',
    0x1401ec: 'FSCTL_LMR_QUERY_DEBUG_INFO',
    0x1401f4: 'IOCTL_SMBMRX_ADDCONN',
    0x1401f8: 'IOCTL_SMBMRX_DELCONN',
    0x140fdb: 'IOCTL_SHADOW_END_REINT',
    0x140378: 'IOCTL_UMRX_RELEASE_THREADS',
    0x14037e: 'IOCTL_UMRX_GET_REQUEST',
    0x140382: 'IOCTL_UMRX_RESPONSE_AND_REQUEST',
    0x140386: 'IOCTL_UMRX_RESPONSE',
    0x140388: 'IOCTL_UMRX_GET_LOCK_OWNER',
    0x14038c: 'IOCTL_LMR_QUERY_REMOTE_SERVER_NAME',
    0x140390: 'IOCTL_LMR_DISABLE_LOCAL_BUFFERING',
    0x140394: 'IOCTL_UMRX_PREPARE_QUEUE',
    0x140397: 'IOCTL_LMR_LWIO_POSTIO',
    0x14039b: 'IOCTL_LMR_LWIO_PREIO',
    0x1403e8: 'FSCTL_NETWORK_REMOTE_BOOT_INIT_SCRT',
    0x2d0c00: 'IOCTL_STORAGE_GET_MEDIA_TYPES',
    0x140fff: 'IOCTL_GETSHADOW',
    0x2d0800: 'IOCTL_STORAGE_CHECK_VERIFY2',
    0x2d080c: 'IOCTL_STORAGE_LOAD_MEDIA2',
    0x2d0940: 'IOCTL_STORAGE_EJECTION_CONTROL',
    0x2d0944: 'IOCTL_STORAGE_MCN_CONTROL',
    0x2d0c04: 'IOCTL_STORAGE_GET_MEDIA_TYPES_EX',
    0x2d0c10: 'IOCTL_STORAGE_GET_MEDIA_SERIAL_NUMBER',
    0x2d0c14: 'IOCTL_STORAGE_GET_HOTPLUG_INFO',
    0x2d1080: 'IOCTL_STORAGE_GET_DEVICE_NUMBER',
    0x2d1100: 'IOCTL_STORAGE_PREDICT_FAILURE',
    0x2d1400: 'IOCTL_STORAGE_QUERY_PROPERTY',
    0x530190: 'IOCTL_VOLSNAP_QUERY_ORIGINAL_VOLUME_NAME',
    0x2d5004: 'IOCTL_STORAGE_RESET_DEVICE',
    0x2d4800: 'IOCTL_STORAGE_CHECK_VERIFY',
    0x2d4804: 'IOCTL_STORAGE_MEDIA_REMOVAL',
    0x2d4808: 'IOCTL_STORAGE_EJECT_MEDIA',
    0x2d480c: 'IOCTL_STORAGE_LOAD_MEDIA',
    0x2d4810: 'IOCTL_STORAGE_RESERVE',
    0x2d4814: 'IOCTL_STORAGE_RELEASE',
    0x2d4818: 'IOCTL_STORAGE_FIND_NEW_DEVICES',
    0x2d5000: 'IOCTL_STORAGE_RESET_BUS',
    0x2d518c: 'IOCTL_STORAGE_QUERY_DEPENDENT_DISK',
    0x2d5014: 'IOCTL_STORAGE_BREAK_RESERVATION',
    0x2d5018: 'IOCTL_STORAGE_PERSISTENT_RESERVE_IN',
    0x2d5140: 'IOCTL_STORAGE_READ_CAPACITY',
    0x2dcc18: 'IOCTL_STORAGE_SET_HOTPLUG_INFO',
    0x2dd01c: 'IOCTL_STORAGE_PERSISTENT_RESERVE_OUT',
    0x38a813: 'IOCTL_CHANNEL_GET_SNDCHANNEL',
    0x530018: 'IOCTL_VOLSNAP_QUERY_NAMES_OF_SNAPSHOTS',
    0x4d0000: 'IOCTL_MOUNTDEV_QUERY_UNIQUE_ID',
    0x4d0004: 'IOCTL_MOUNTDEV_UNIQUE_ID_CHANGE_NOTIFY',
    0x4d0008: 'IOCTL_MOUNTDEV_QUERY_DEVICE_NAME',
    0x4d000c: 'IOCTL_MOUNTDEV_QUERY_SUGGESTED_LINK_NAME',
    0x4d0010: 'IOCTL_MOUNTDEV_LINK_CREATED',
    0x4d0014: 'IOCTL_MOUNTDEV_LINK_DELETED',
    0x530024: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA',
    0x53002c: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA_SIZES',
    0x530034: 'IOCTL_VOLSNAP_AUTO_CLEANUP',
    0x53003c: 'IOCTL_VOLSNAP_QUERY_REVERT',
    0x530040: 'IOCTL_VOLSNAP_REVERT_CLEANUP',
    0x530048: 'IOCTL_VOLSNAP_QUERY_REVERT_PROGRESS',
    0x53004c: 'IOCTL_VOLSNAP_CANCEL_REVERT',
    0x530050: 'IOCTL_VOLSNAP_QUERY_EPIC',
    0x53005e: 'IOCTL_VOLSNAP_QUERY_COPY_FREE_BITMAP',
    0x534054: 'IOCTL_VOLSNAP_QUERY_OFFLINE',
    0x53019c: 'IOCTL_VOLSNAP_QUERY_CONFIG_INFO',
    0x5301a0: 'IOCTL_VOLSNAP_HAS_CHANGED',
    0x5301a4: 'IOCTL_VOLSNAP_SET_SNAPSHOT_PRIORITY',
    0x5301a8: 'IOCTL_VOLSNAP_QUERY_SNAPSHOT_PRIORITY',
    0x5301ae: 'IOCTL_VOLSNAP_QUERY_DELTA_BITMAP',
    0x5301b2: 'IOCTL_VOLSNAP_QUERY_SNAPSHOT_SUPPLEMENTAL',
    0x5301b6: 'IOCTL_VOLSNAP_QUERY_COPIED_BITMAP',
    0x5301b8: 'IOCTL_VOLSNAP_QUERY_MOVE_LIST',
    0x5301be: 'IOCTL_VOLSNAP_QUERY_PRE_COPIED_BITMAP',
    0x5301c2: 'IOCTL_VOLSNAP_QUERY_USED_PRE_COPIED_BITMAP',
    0x5301c6: 'IOCTL_VOLSNAP_QUERY_DEFRAG_PRE_COPIED_BITMAP',
    0x5301ca: 'IOCTL_VOLSNAP_QUERY_FREESPACE_PRE_COPIED_BITMAP',
    0x5301ce: 'IOCTL_VOLSNAP_QUERY_HOTBLOCKS_PRE_COPIED_BITMAP',
    0x5301d0: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA_FILE_SIZES',
    0x53c000: 'IOCTL_VOLSNAP_FLUSH_AND_HOLD_WRITES',
    0x534058: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA_MINIMUM_SIZE',
    0x534064: 'IOCTL_VOLSNAP_BLOCK_DELETE_IN_THE_MIDDLE',
    0x534070: 'IOCTL_VOLSNAP_QUERY_APPLICATION_FLAGS',
    0x534080: 'IOCTL_VOLSNAP_QUERY_PERFORMANCE_COUNTERS',
    0x534088: 'IOCTL_VOLSNAP_QUERY_PRE_COPY_AMOUNTS',
    0x53408c: 'IOCTL_VOLSNAP_QUERY_DEFAULT_PRE_COPY_AMOUNTS',
    0x53c198: 'IOCTL_VOLSNAP_SET_APPLICATION_INFO',
    0x53c004: 'IOCTL_VOLSNAP_RELEASE_WRITES',
    0x53c008: 'IOCTL_VOLSNAP_PREPARE_FOR_SNAPSHOT',
    0x53c00c: 'IOCTL_VOLSNAP_ABORT_PREPARED_SNAPSHOT',
    0x53c010: 'IOCTL_VOLSNAP_COMMIT_SNAPSHOT',
    0x53c014: 'IOCTL_VOLSNAP_END_COMMIT_SNAPSHOT',
    0x53c01c: 'IOCTL_VOLSNAP_CLEAR_DIFF_AREA',
    0x53c020: 'IOCTL_VOLSNAP_ADD_VOLUME_TO_DIFF_AREA',
    0x53c028: 'IOCTL_VOLSNAP_SET_MAX_DIFF_AREA_SIZE',
    0x53c030: 'IOCTL_VOLSNAP_DELETE_OLDEST_SNAPSHOT',
    0x53c038: 'IOCTL_VOLSNAP_DELETE_SNAPSHOT',
    0x53c044: 'IOCTL_VOLSNAP_REVERT',
    0x53c068: 'IOCTL_VOLSNAP_SET_MAX_DIFF_AREA_SIZE_TEMP',
    0x53c06c: 'IOCTL_VOLSNAP_SET_APPLICATION_FLAGS',
    0x53c07c: 'IOCTL_VOLSNAP_SET_BC_FAILURE_MODE',
    0x53c084: 'IOCTL_VOLSNAP_SET_PRE_COPY_AMOUNTS',
    0x53c090: 'IOCTL_VOLSNAP_PRE_EXPOSE_DEVICES',
    0x560000: 'IOCTL_VOLUME_GET_VOLUME_DISK_EXTENTS',
    0x560038: 'IOCTL_VOLUME_GET_GPT_ATTRIBUTES',
    0x700010: 'IOCTL_DISK_QUERY_DEVICE_STATE',
    0x704008: 'IOCTL_DISK_QUERY_DISK_SIGNATURE',
}

REG_TYPE = {
    0x0: 'REG_NONE',
    0x1: 'REG_SZ',
    0x2: 'REG_EXPAND_SZ',
    0x3: 'REG_BINARY',
    0x4: 'REG_DWORD',
    0x5: 'REG_DWORD_BIG_ENDIAN',
    0x6: 'REG_LINK',
    0x7: 'REG_MULTI_SZ',
    0x8: 'REG_RESOURCE_LIST',
    0x9: 'REG_FULL_RESOURCE_DESCRIPTOR',
    0xa: 'REG_RESOURCE_REQUIREMENTS_LIST',
    0xb: 'REG_QWORD',
}

REG_KEY_INFO = {
    0x0: 'Basic',
    0x1: 'Node',
    0x2: 'Full',
    0x3: 'Name',
    0x4: 'Cached',
    0x5: 'Flags',
    0x6: 'Virtualization',
    0x7: 'HandleTags',
    0x8: 'Trust',
    0x9: 'Layer',
}

REG_VALUE_INFO = {
    0x0: 'KeyValueBasicInformation',
    0x1: 'KeyValueFullInformation',
    0x2: 'KeyValuePartialInformation',
    0x3: 'KeyValueFullInformationAlign64',
    0x4: 'KeyValuePartialInformationAlign64',
    0x5: 'KeyValueLayerInformation',
}

REG_SET_INFO = {
    0x0: 'KeyWriteTimeInformation',
    0x1: 'KeyWow64FlagsInformation',
    0x5: 'KeySetHandleTagsInformation',
}

REG_DISPOSITION = {
    0x1: 'REG_CREATED_NEW_KEY',
    0x2: 'REG_OPENED_EXISTING_KEY',
}

DISPOSITION = {
    0x0: 'Supersede',
    0x1: 'Open',
    0x2: 'Create',
    0x3: 'OpenIf',
    0x4: 'Overwrite',
    0x5: 'OverwriteIf',
}

OPEN_RESULT = {
    0x0: 'Superseded',
    0x1: 'Opened',
    0x2: 'Created',
    0x3: 'Overwritten',
    0x4: 'Exists',
    0x5: 'DoesNotExist',
}

FILE_INFO = {
    0x0: 'Unknown',
    0x1: 'FileDirectoryInformation',
    0x2: 'FileFullDirectoryInformation',
    0x3: 'FileBothDirectoryInformation',
    0x4: 'FileBasicInformation',
    0x5: 'FileStandardInformation',
    0x6: 'FileInternalInformation',
    0x7: 'FileEaInformation',
    0x8: 'FileAccessInformation',
    0x9: 'FileNameInformation',
    0xa: 'FileRenameInformation',
    0xb: 'FileLinkInformation',
    0xc: 'FileNamesInformation',
    0xd: 'FileDispositionInformation',
    0xe: 'FilePositionInformation',
    0xf: 'FileFullEaInformation',
    0x10: 'FileModeInformation',
    0x11: 'FileAlignmentInformation',
    0x12: 'FileAllInformation',
    0x13: 'FileAllocationInformation',
    0x14: 'FileEndOfFileInformation',
    0x15: 'FileAlternateNameInformation',
    0x16: 'FileStreamInformation',
    0x17: 'FilePipeInformation',
    0x18: 'FilePipeLocalInformation',
    0x19: 'FilePipeRemoteInformation',
    0x1a: 'FileMailslotQueryInformation',
    0x1b: 'FileMailslotSetInformation',
    0x1c: 'FileCompressionInformation',
    0x1d: 'FileObjectIdInformation',
    0x1e: 'FileCompletionInformation',
    0x1f: 'FileMoveClusterInformation',
    0x20: 'FileQuotaInformation',
    0x21: 'FileReparsePointInformation',
    0x22: 'FileNetworkOpenInformation',
    0x23: 'FileAttributeTagInformation',
    0x24: 'FileTrackingInformation',
    0x25: 'FileIdBothDirectoryInformation',
    0x26: 'FileIdFullDirectoryInformation',
    0x27: 'FileValidDataLengthInformation',
    0x28: 'FileShortNameInformation',
    0x29: 'FileIoCompletionNotificationInformation',
    0x2a: 'FileIoStatusBlockRangeInformation',
    0x2b: 'FileIoPriorityHintInformation',
    0x2c: 'FileSfioReserveInformation',
    0x2d: 'FileSfioVolumeInformation',
    0x2e: 'FileHardLinkInformation',
    0x2f: 'FileProcessIdsUsingFileInformation',
    0x30: 'FileNormalizedNameInformation',
    0x31: 'FileNetworkPhysicalNameInformation',
    0x32: 'FileIdGlobalTxDirectoryInformation',
    0x33: 'FileIsRemoteDeviceInformation',
    0x34: 'FileUnusedInformation',
    0x35: 'FileNumaNodeInformation',
    0x36: 'FileStandardLinkInformation',
    0x37: 'FileRemoteProtocolInformation',
    0x38: 'FileRenameInformationBypassAccessCheck',
    0x39: 'FileLinkInformationBypassAccessCheck',
    0x3a: 'FileVolumeNameInformation',
    0x3b: 'FileIdInformation',
    0x3c: 'FileIdExtdDirectoryInformation',
    0x3d: 'FileReplaceCompletionInformation',
    0x3e: 'FileHardLinkFullIdInformation',
    0x3f: 'FileIdExtdBothDirectoryInformation',
    0x40: 'FileDispositionInformationEx',
    0x41: 'FileRenameInformationEx',
    0x42: 'FileRenameInformationExBypassAccessCheck',
    0x43: 'FileDesiredStorageClassInformation',
    0x44: 'FileStatInformation',
    0x45: 'FileMemoryPartitionInformation',
    0x46: 'FileMaximumInformation',
    0x47: 'SeShutdownPrivilege',
    0x48: 'SeChangeNotifyPrivilege',
    0x49: 'SeUndockPrivilege',
    0x4a: 'SeIncreaseWorkingSetPrivilege',
    0x4b: 'SeTimeZonePrivilege',
}

PRIORITY = {
    0x0: '',
    0x1: 'Very Low',
    0x2: 'Low',
    0x3: 'Normal',
    0x4: 'High',
    0x5: 'Critical',
}

SYNC_TYPE = {
    0x0: 'SyncTypeOther',
    0x1: 'SyncTypeCreateSection',
}

PAGE_PROTECTION = {
    0x2: 'PAGE_READONLY',
    0x4: 'PAGE_READWRITE',
    0x8: 'PAGE_WRITECOPY',
    0x10: 'PAGE_EXECUTE',
    0x20: 'PAGE_EXECUTE_READ',
    0x40: 'PAGE_EXECUTE_READWRITE',
    0x200: 'PAGE_NOCACHE',
}

REG_ACCESS = [
    (0xf003f, 'All Access'),
    (0x2001f, 'Read/Write'),
    (0x20019, 'Read'),
    (0x20006, 'Write'),
    (0x1, 'Query Value'),
    (0x2, 'Set Value'),
    (0x4, 'Create Sub Key'),
    (0x8, 'Enumerate Sub Keys'),
    (0x10, 'Notify'),
    (0x20, 'Create Link'),
    (0x300, 'WOW64_Res'),
    (0x200, 'WOW64_32Key'),
    (0x100, 'WOW64_64Key'),
    (0x10000, 'Delete'),
    (0x20000, 'Read Control'),
    (0x40000, 'Write DAC'),
    (0x80000, 'Write Owner'),
    (0x100000, 'Synchronize'),
    (0x1000000, 'Access System Security'),
    (0x2000000, 'Maximum Allowed'),
]

FILE_ACCESS = [
    (0x1f01ff, 'All Access'),
    (0x1201bf, 'Generic Read/Write/Execute'),
    (0x12019f, 'Generic Read/Write'),
    (0x1200a9, 'Generic Read/Execute'),
    (0x1201b6, 'Generic Write/Execute'),
    (0x120089, 'Generic Read'),
    (0x120116, 'Generic Write'),
    (0x1200a0, 'Generic Execute'),
    (0x1, 'Read Data/List Directory'),
    (0x2, 'Write Data/Add File'),
    (0x4, 'Append Data/Add Subdirectory/Create Pipe Instance'),
    (0x8, 'Read EA'),
    (0x10, 'Write EA'),
    (0x20, 'Execute/Traverse'),
    (0x40, 'Delete Child'),
    (0x80, 'Read Attributes'),
    (0x100, 'Write Attributes'),
    (0x10000, 'Delete'),
    (0x20000, 'Read Control'),
    (0x40000, 'Write DAC'),
    (0x80000, 'Write Owner'),
    (0x100000, 'Synchronize'),
    (0x1000000, 'Access System Security'),
    (0x2000000, 'Maximum Allowed'),
]

CREATE_OPTIONS = [
    (0x1, 'Directory'),
    (0x2, 'Write Through'),
    (0x4, 'Sequential Access'),
    (0x8, 'No Buffering'),
    (0x10, 'Synchronous IO Alert'),
    (0x20, 'Synchronous IO Non-Alert'),
    (0x40, 'Non-Directory File'),
    (0x80, 'Create Tree Connection'),
    (0x100, 'Complete If Oplocked'),
    (0x200, 'No EA Knowledge'),
    (0x400, 'Open for Recovery'),
    (0x800, 'Random Access'),
    (0x1000, 'Delete On Close'),
    (0x2000, 'Open By ID'),
    (0x4000, 'Open For Backup'),
    (0x8000, 'No Compression'),
    (0x100000, 'Reserve OpFilter'),
    (0x200000, 'Open Reparse Point'),
    (0x400000, 'Open No Recall'),
    (0x800000, 'Open For Free Space Query'),
    (0x10000, 'Open Requiring Oplock'),
    (0x20000, 'Disallow Exclusive'),
]

FILE_ATTRIBUTES = [
    (0x1, 'R'),
    (0x2, 'H'),
    (0x4, 'S'),
    (0x10, 'D'),
    (0x20, 'A'),
    (0x40, 'D'),
    (0x80, 'N'),
    (0x100, 'T'),
    (0x200, 'SF'),
    (0x400, 'RP'),
    (0x800, 'C'),
    (0x1000, 'O'),
    (0x2000, 'NCI'),
    (0x4000, 'E'),
    (0x10000, 'V'),
]

SHARE_MODE = [
    (0x1, 'Read'),
    (0x2, 'Write'),
    (0x4, 'Delete'),
]

IO_FLAGS = [
    (0x10, 'Buffered'),
    (0x1, 'Non-cached'),
    (0x2, 'Paging I/O'),
    (0x4, 'Synchronous'),
    (0x40, 'Synchronous Paging I/O'),
    (0x400000, 'Write Through'),
]

NOTIFY = [
    (0x1, 'FILE_NOTIFY_CHANGE_FILE_NAME'),
    (0x2, 'FILE_NOTIFY_CHANGE_DIR_NAME'),
    (0x3, 'FILE_NOTIFY_CHANGE_NAME'),
    (0x4, 'FILE_NOTIFY_CHANGE_ATTRIBUTES'),
    (0x8, 'FILE_NOTIFY_CHANGE_SIZE'),
    (0x10, 'FILE_NOTIFY_CHANGE_LAST_WRITE'),
    (0x20, 'FILE_NOTIFY_CHANGE_LAST_ACCESS'),
    (0x40, 'FILE_NOTIFY_CHANGE_CREATION'),
    (0x80, 'FILE_NOTIFY_CHANGE_EA'),
    (0x100, 'FILE_NOTIFY_CHANGE_SECURITY'),
    (0x200, 'FILE_NOTIFY_CHANGE_STREAM_NAME'),
    (0x400, 'FILE_NOTIFY_CHANGE_STREAM_SIZE'),
    (0x800, 'FILE_NOTIFY_CHANGE_STREAM_WRITE'),
]

REG_GENERIC = [131097, 131078, 131097, 983103]
FILE_GENERIC = [1179785, 1179926, 1179808, 2032127]

COLUMN = {
    0x0: 'NONE',
    0x9c74: 'DATE_AND_TIME',
    0x9c75: 'PROCESS_NAME',
    0x9c76: 'PID',
    0x9c77: 'OPERATION',
    0x9c78: 'RESULT',
    0x9c79: 'DETAIL',
    0x9c7a: 'SEQUENCE',
    0x9c80: 'COMPANY',
    0x9c81: 'DESCRIPTION',
    0x9c82: 'COMMAND_LINE',
    0x9c83: 'USER',
    0x9c84: 'IMAGE_PATH',
    0x9c85: 'SESSION',
    0x9c87: 'PATH',
    0x9c88: 'TID',
    0x9c8c: 'RELATIVE_TIME',
    0x9c8d: 'DURATION',
    0x9c8e: 'TIME_OF_DAY',
    0x9c91: 'VERSION',
    0x9c92: 'EVENT_CLASS',
    0x9c93: 'AUTHENTICATION_ID',
    0x9c94: 'VIRTUALIZED',
    0x9c95: 'INTEGRITY',
    0x9c96: 'CATEGORY',
    0x9c97: 'PARENT_PID',
    0x9c98: 'ARCHITECTURE',
    0x9ce4: 'COMPLETION_TIME',
}

COLUMN_TITLE = {
    0x9c74: 'Date & Time',
    0x9c75: 'Process Name',
    0x9c76: 'PID',
    0x9c77: 'Operation',
    0x9c78: 'Result',
    0x9c79: 'Detail',
    0x9c7a: 'Sequence',
    0x9c80: 'Company',
    0x9c81: 'Description',
    0x9c82: 'Command Line',
    0x9c83: 'User',
    0x9c84: 'Image Path',
    0x9c85: 'Session',
    0x9c87: 'Path',
    0x9c88: 'TID',
    0x9c8c: 'Relative Time',
    0x9c8d: 'Duration',
    0x9c8e: 'Time of Day',
    0x9c91: 'Version',
    0x9c92: 'Event Class',
    0x9c93: 'Authentication ID',
    0x9c94: 'Virtualized',
    0x9c95: 'Integrity',
    0x9c96: 'Category',
    0x9c97: 'Parent PID',
    0x9c98: 'Architecture',
    0x9ce4: 'Completion Time',
}

RULE_ACTION = {
    0x0: 'EXCLUDE',
    0x1: 'INCLUDE',
}

RULE_RELATION = {
    0x0: 'IS',
    0x1: 'IS_NOT',
    0x2: 'LESS_THAN',
    0x3: 'MORE_THAN',
    0x4: 'BEGINS_WITH',
    0x5: 'ENDS_WITH',
    0x6: 'CONTAINS',
    0x7: 'EXCLUDES',
}
