//go:build go1.22

package chk

// The presets that the command knows by name.
var vrmPresets = map[string]string{
	"mmd":    `{"meta": {"version": "0.0.0"}, "boneMappings": [{"bone": "hips", "nodeNames": ["センター", "center"]}, {"bone": "spine", "nodeNames": ["上半身", "upper body"]}, {"bone": "chest", "nodeNames": ["上半身2", "upper body2"]}, {"bone": "neck", "nodeNames": ["首", "neck"]}, {"bone": "head", "nodeNames": ["頭", "head"]}, {"bone": "leftShoulder", "nodeNames": ["左肩", "shoulder_L"]}, {"bone": "leftUpperArm", "nodeNames": ["左腕", "arm_L"]}, {"bone": "leftLowerArm", "nodeNames": ["左ひじ", "elbow_L"]}, {"bone": "leftHand", "nodeNames": ["左手首", "wrist_L"]}, {"bone": "rightShoulder", "nodeNames": ["右肩", "shoulder_R"]}, {"bone": "rightUpperArm", "nodeNames": ["右腕", "arm_R"]}, {"bone": "rightLowerArm", "nodeNames": ["右ひじ", "elbow_R"]}, {"bone": "rightHand", "nodeNames": ["右手首", "wrist_R"]}, {"bone": "leftUpperLeg", "nodeNames": ["左足", "leg_L"]}, {"bone": "leftLowerLeg", "nodeNames": ["左ひざ", "knee_L"]}, {"bone": "leftFoot", "nodeNames": ["左足首", "ankle_L"]}, {"bone": "leftToes", "nodeNames": ["左つま先", "L toe"]}, {"bone": "rightUpperLeg", "nodeNames": ["右足", "leg_R"]}, {"bone": "rightLowerLeg", "nodeNames": ["右ひざ", "knee_R"]}, {"bone": "rightFoot", "nodeNames": ["右足首", "ankle_R"]}, {"bone": "rightToes", "nodeNames": ["右つま先", "R toe"]}, {"bone": "leftEye", "nodeNames": ["左目", "eye_L"]}, {"bone": "rightEye", "nodeNames": ["右目", "eye_R"]}, {"bone": "leftThumbProximal", "nodeNames": ["左親指０", "thumb0_L"]}, {"bone": "leftThumbIntermediate", "nodeNames": ["左親指１", "thumb1_L"]}, {"bone": "leftThumbDistal", "nodeNames": ["左親指２", "thumb2_L"]}, {"bone": "leftIndexProximal", "nodeNames": ["左人指１", "fore1_L"]}, {"bone": "leftIndexIntermediate", "nodeNames": ["左人指２", "fore2_L"]}, {"bone": "leftIndexDistal", "nodeNames": ["左人指３", "fore3_L"]}, {"bone": "leftMiddleProximal", "nodeNames": ["左中指１", "middle1_L"]}, {"bone": "leftMiddleIntermediate", "nodeNames": ["左中指２", "middle2_L"]}, {"bone": "leftMiddleDistal", "nodeNames": ["左中指３", "middle3_L"]}, {"bone": "leftRingProximal", "nodeNames": ["左薬指１", "third1_L"]}, {"bone": "leftRingIntermediate", "nodeNames": ["左薬指２", "third2_L"]}, {"bone": "leftRingDistal", "nodeNames": ["左薬指３", "third3_L"]}, {"bone": "leftLittleProximal", "nodeNames": ["左小指１", "little1_L"]}, {"bone": "leftLittleIntermediate", "nodeNames": ["左小指２", "little2_L"]}, {"bone": "leftLittleDistal", "nodeNames": ["左小指３", "little3_L"]}, {"bone": "rightThumbProximal", "nodeNames": ["右親指０", "thumb0_R"]}, {"bone": "rightThumbIntermediate", "nodeNames": ["右親指１", "thumb1_R"]}, {"bone": "rightThumbDistal", "nodeNames": ["右親指２", "thumb2_R"]}, {"bone": "rightIndexProximal", "nodeNames": ["右人指１", "fore1_R"]}, {"bone": "rightIndexIntermediate", "nodeNames": ["右人指２", "fore2_R"]}, {"bone": "rightIndexDistal", "nodeNames": ["右人指３", "fore3_R"]}, {"bone": "rightMiddleProximal", "nodeNames": ["右中指１", "middle1_R"]}, {"bone": "rightMiddleIntermediate", "nodeNames": ["右中指２", "middle2_R"]}, {"bone": "rightMiddleDistal", "nodeNames": ["右中指３", "middle3_R"]}, {"bone": "rightRingProximal", "nodeNames": ["右薬指１", "third1_R"]}, {"bone": "rightRingIntermediate", "nodeNames": ["右薬指２", "third2_R"]}, {"bone": "rightRingDistal", "nodeNames": ["右薬指３", "third3_R"]}, {"bone": "rightLittleProximal", "nodeNames": ["右小指１", "little1_R"]}, {"bone": "rightLittleIntermediate", "nodeNames": ["右小指２", "little2_R"]}, {"bone": "rightLittleDistal", "nodeNames": ["右小指３", "little3_R"]}], "morphMappings": [{"name": "Blink", "targetName": "まばたき"}, {"name": "A", "targetName": "あ"}, {"name": "I", "targetName": "い"}, {"name": "U", "targetName": "う"}, {"name": "E", "targetName": "え"}, {"name": "O", "targetName": "お"}, {"name": "Blink_L", "targetName": "ウインク"}, {"name": "Blink_R", "targetName": "ウインク右"}, {"name": "Joy", "targetName": "笑い"}, {"name": "Fun", "targetName": "にこり"}, {"name": "Angry", "targetName": "怒り"}, {"name": "Sorrow", "targetName": "困る"}], "animationBoneGroups": [], "materialSettings": {"*": {"forceUnlit": false}}}`,
	"mmd_en": `{"meta": {"version": "0.0.0"}, "boneMappings": [{"bone": "hips", "nodeName": "center"}, {"bone": "spine", "nodeName": "upper body"}, {"bone": "chest", "nodeName": "upper body2"}, {"bone": "neck", "nodeName": "neck"}, {"bone": "head", "nodeName": "head"}, {"bone": "leftShoulder", "nodeName": "shoulder_L"}, {"bone": "leftUpperArm", "nodeName": "arm_L"}, {"bone": "leftLowerArm", "nodeName": "elbow_L"}, {"bone": "leftHand", "nodeName": "wrist_L"}, {"bone": "rightShoulder", "nodeName": "shoulder_R"}, {"bone": "rightUpperArm", "nodeName": "arm_R"}, {"bone": "rightLowerArm", "nodeName": "elbow_R"}, {"bone": "rightHand", "nodeName": "wrist_R"}, {"bone": "leftUpperLeg", "nodeName": "leg_L"}, {"bone": "leftLowerLeg", "nodeName": "knee_L"}, {"bone": "leftFoot", "nodeName": "ankle_L"}, {"bone": "rightUpperLeg", "nodeName": "leg_R"}, {"bone": "rightLowerLeg", "nodeName": "knee_R"}, {"bone": "rightFoot", "nodeName": "ankle_R"}, {"bone": "leftEye", "nodeName": "eye_L"}, {"bone": "rightEye", "nodeName": "eye_R"}, {"bone": "leftThumbProximal", "nodeName": "thumb0_L"}, {"bone": "leftThumbIntermediate", "nodeName": "thumb1_L"}, {"bone": "leftThumbDistal", "nodeName": "thumb2_L"}, {"bone": "leftIndexProximal", "nodeName": "fore1_L"}, {"bone": "leftIndexIntermediate", "nodeName": "fore2_L"}, {"bone": "leftIndexDistal", "nodeName": "fore3_L"}, {"bone": "leftMiddleProximal", "nodeName": "middle1_L"}, {"bone": "leftMiddleIntermediate", "nodeName": "middle2_L"}, {"bone": "leftMiddleDistal", "nodeName": "middle3_L"}, {"bone": "leftRingProximal", "nodeName": "third1_L"}, {"bone": "leftRingIntermediate", "nodeName": "third2_L"}, {"bone": "leftRingDistal", "nodeName": "third3_L"}, {"bone": "leftLittleProximal", "nodeName": "little1_L"}, {"bone": "leftLittleIntermediate", "nodeName": "little2_L"}, {"bone": "leftLittleDistal", "nodeName": "little3_L"}, {"bone": "rightThumbProximal", "nodeName": "thumb0_R"}, {"bone": "rightThumbIntermediate", "nodeName": "thumb1_R"}, {"bone": "rightThumbDistal", "nodeName": "thumb2_R"}, {"bone": "rightIndexProximal", "nodeName": "fore1_R"}, {"bone": "rightIndexIntermediate", "nodeName": "fore2_R"}, {"bone": "rightIndexDistal", "nodeName": "fore3_R"}, {"bone": "rightMiddleProximal", "nodeName": "middle1_R"}, {"bone": "rightMiddleIntermediate", "nodeName": "middle2_R"}, {"bone": "rightMiddleDistal", "nodeName": "middle3_R"}, {"bone": "rightRingProximal", "nodeName": "third1_R"}, {"bone": "rightRingIntermediate", "nodeName": "third2_R"}, {"bone": "rightRingDistal", "nodeName": "third3_R"}, {"bone": "rightLittleProximal", "nodeName": "little1_R"}, {"bone": "rightLittleIntermediate", "nodeName": "little2_R"}, {"bone": "rightLittleDistal", "nodeName": "little3_R"}], "morphMappings": [{"name": "Blink", "targetName": "まばたき"}, {"name": "A", "targetName": "あ"}, {"name": "I", "targetName": "い"}, {"name": "U", "targetName": "う"}, {"name": "E", "targetName": "え"}, {"name": "O", "targetName": "お"}, {"name": "Fun", "targetName": "にこり"}, {"name": "Angry", "targetName": "怒り"}, {"name": "Sorrow", "targetName": "困る"}], "animationBoneGroups": [], "materialSettings": {"*": {"forceUnlit": false}}}`,
	"mmd_ja": `{"meta": {"version": "0.0.0"}, "boneMappings": [{"bone": "hips", "nodeName": "センター"}, {"bone": "spine", "nodeName": "上半身"}, {"bone": "chest", "nodeName": "上半身2"}, {"bone": "neck", "nodeName": "首"}, {"bone": "head", "nodeName": "頭"}, {"bone": "leftShoulder", "nodeName": "左肩"}, {"bone": "leftUpperArm", "nodeName": "左腕"}, {"bone": "leftLowerArm", "nodeName": "左ひじ"}, {"bone": "leftHand", "nodeName": "左手首"}, {"bone": "rightShoulder", "nodeName": "右肩"}, {"bone": "rightUpperArm", "nodeName": "右腕"}, {"bone": "rightLowerArm", "nodeName": "右ひじ"}, {"bone": "rightHand", "nodeName": "右手首"}, {"bone": "leftUpperLeg", "nodeName": "左足"}, {"bone": "leftLowerLeg", "nodeName": "左ひざ"}, {"bone": "leftFoot", "nodeName": "左足首"}, {"bone": "rightUpperLeg", "nodeName": "右足"}, {"bone": "rightLowerLeg", "nodeName": "右ひざ"}, {"bone": "rightFoot", "nodeName": "右足首"}, {"bone": "leftEye", "nodeName": "左目"}, {"bone": "rightEye", "nodeName": "右目"}, {"bone": "leftThumbProximal", "nodeName": "左親指０"}, {"bone": "leftThumbIntermediate", "nodeName": "左親指１"}, {"bone": "leftThumbDistal", "nodeName": "左親指２"}, {"bone": "leftIndexProximal", "nodeName": "左人指１"}, {"bone": "leftIndexIntermediate", "nodeName": "左人指２"}, {"bone": "leftIndexDistal", "nodeName": "左人指３"}, {"bone": "leftMiddleProximal", "nodeName": "左中指１"}, {"bone": "leftMiddleIntermediate", "nodeName": "左中指２"}, {"bone": "leftMiddleDistal", "nodeName": "左中指３"}, {"bone": "leftRingProximal", "nodeName": "左薬指１"}, {"bone": "leftRingIntermediate", "nodeName": "左薬指２"}, {"bone": "leftRingDistal", "nodeName": "左薬指３"}, {"bone": "leftLittleProximal", "nodeName": "左小指１"}, {"bone": "leftLittleIntermediate", "nodeName": "左小指２"}, {"bone": "leftLittleDistal", "nodeName": "左小指３"}, {"bone": "rightThumbProximal", "nodeName": "右親指０"}, {"bone": "rightThumbIntermediate", "nodeName": "右親指１"}, {"bone": "rightThumbDistal", "nodeName": "右親指２"}, {"bone": "rightIndexProximal", "nodeName": "右人指１"}, {"bone": "rightIndexIntermediate", "nodeName": "右人指２"}, {"bone": "rightIndexDistal", "nodeName": "右人指３"}, {"bone": "rightMiddleProximal", "nodeName": "右中指１"}, {"bone": "rightMiddleIntermediate", "nodeName": "右中指２"}, {"bone": "rightMiddleDistal", "nodeName": "右中指３"}, {"bone": "rightRingProximal", "nodeName": "右薬指１"}, {"bone": "rightRingIntermediate", "nodeName": "右薬指２"}, {"bone": "rightRingDistal", "nodeName": "右薬指３"}, {"bone": "rightLittleProximal", "nodeName": "右小指１"}, {"bone": "rightLittleIntermediate", "nodeName": "右小指２"}, {"bone": "rightLittleDistal", "nodeName": "右小指３"}], "morphMappings": [{"name": "Blink", "targetName": "まばたき"}, {"name": "A", "targetName": "あ"}, {"name": "I", "targetName": "い"}, {"name": "U", "targetName": "う"}, {"name": "E", "targetName": "え"}, {"name": "O", "targetName": "お"}, {"name": "Fun", "targetName": "にこり"}, {"name": "Angry", "targetName": "怒り"}, {"name": "Sorrow", "targetName": "困る"}], "animationBoneGroups": [], "materialSettings": {"*": {"forceUnlit": false}}}`,
}
