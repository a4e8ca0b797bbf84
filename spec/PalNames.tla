---------------------------------- MODULE PalNames ----------------------------------
(* The established table: which concrete model class each map object name (in lower case) has. *)
EXTENDS Integers, Sequences
ClassTable == <<
  <<"PalMapObjectDeathDroppedCharacterModel", <<"droppedcharacter">>>>,
  <<"PalMapObjectConvertItemModel", <<"blastfurnace", "blastfurnace2", "blastfurnace3", "blastfurnace4", "blastfurnace5", "campfire", "cookingstove", "electrickitchen", "factory_comfortable_01", "factory_comfortable_02", "factory_hard_01", "factory_hard_02", "factory_hard_03", "hightechkitchen", "medicinefacility_01", "medicinefacility_02", "medicinefacility_03", "spherefactory_black_01", "spherefactory_black_02", "spherefactory_black_03", "spherefactory_white_01", "spherefactory_white_02", "spherefactory_white_03", "weaponfactory_clean_01", "weaponfactory_clean_02", "weaponfactory_clean_03", "weaponfactory_dirty_01", "weaponfactory_dirty_02", "weaponfactory_dirty_03", "workbench", "workbench_skillunlock", "workbench_skillcard", "crusher", "woodcrusher", "flourmill">>>>,
  <<"PalMapObjectRankUpCharacterModel", <<"characterrankup">>>>,
  <<"PalMapObjectDropItemModel", <<"commondropitem3d">>>>,
  <<"PalMapObjectItemDropOnDamagModel", <<"damagablerock_pv", "damagablerock0001", "damagablerock0002", "damagablerock0003", "damagablerock0004", "damagablerock0005", "damagablerock0017", "damagablerock0006", "damagablerock0007", "damagablerock0008", "damagablerock0009", "damagablerock0010", "damagablerock0011", "damagablerock0012", "damagablerock0013", "damagablerock0014", "damagablerock0015", "damagablerock0016">>>>,
  <<"PalMapObjectDeathPenaltyStorageModel", <<"deathpenaltychest">>>>,
  <<"PalMapObjectDefenseBulletLauncherModel", <<"defensegatlinggun", "defensemachinegun", "defensebowgun", "defensemissile">>>>,
  <<"DEFAULT_UNKNOWN_PalMapObjectConcreteModelBase", <<"defenseminigun", "trap_leghold", "trap_leghold_big", "trap_noose", "trap_movingpanel", "trap_mineelecshock", "trap_minefreeze", "trap_mineattack">>>>,
  <<"PalMapObjectDefenseWaitModel", <<"defensewait">>>>,
  <<"PalMapObjectGenerateEnergyModel", <<"electricgenerator", "electricgenerator_slave", "electricgenerator2", "electricgenerator3">>>>,
  <<"PalMapObjectFarmBlockV2Model", <<"farmblockv2_grade01", "farmblockv2_grade02", "farmblockv2_grade03", "farmblockv2_wheet", "farmblockv2_tomato", "farmblockv2_lettuce", "farmblockv2_berries">>>>,
  <<"PalMapObjectFastTravelPointModel", <<"fasttravelpoint">>>>,
  <<"PalMapObjectItemChestModel", <<"itemchest", "itemchest_02", "itemchest_03", "dev_itemchest", "barrel_wood", "box_wood", "box01_iron", "box02_iron", "shelf_wood", "shelf_cask_wood", "shelf_hang01_wood", "shelf01_iron", "shelf02_iron", "shelf03_iron", "shelf04_iron", "shelf05_stone", "shelf06_stone", "shelf07_stone", "shelf01_wall_stone", "shelf01_wall_iron", "shelf01_stone", "shelf02_stone", "shelf03_stone", "shelf04_stone", "container01_iron">>>>,
  <<"PalMapObjectMedicalPalBedModel", <<"medicalpalbed", "medicalpalbed_02", "medicalpalbed_03", "medicalpalbed_04">>>>,
  <<"PalMapObjectPalFoodBoxModel", <<"palfoodbox">>>>,
  <<"PalMapObjectBaseCampPoint", <<"palboxv2">>>>,
  <<"PalMapObjectDisplayCharacterModel", <<"displaycharacter">>>>,
  <<"PalMapObjectPickupItemOnLevelModel", <<"pickupitem_flint", "pickupitem_log", "pickupitem_redberry", "pickupitem_stone", "pickupitem_potato", "pickupitem_poppy", "treasurebox_visiblecontent", "treasurebox_visiblecontent_skillfruits", "pickupitem_mushroom", "skillfruit_test">>>>,
  <<"PalMapObjectPlayerBedModel", <<"playerbed", "playerbed_02", "playerbed_03">>>>,
  <<"PalMapObjectShippingItemModel", <<"shippingitembox">>>>,
  <<"PalBuildObject", <<"stonehouse1", "strawhouse1", "woodhouse1", "wooden_foundation", "wooden_wall", "wooden_roof", "wooden_stair", "stone_foundation", "stone_wall", "stone_roof", "stone_stair", "metal_foundation", "metal_wall", "metal_roof", "metal_stair", "defensewall_wood", "defensewall", "defensewall_metal", "wood_windowwall", "stone_windowwall", "metal_windowwall", "wood_trianglewall", "stone_trianglewall", "metal_trianglewall", "wood_slantedroof", "stone_slantedroof", "metal_slantedroof", "table1", "tablesquare_wood", "tablecircular_wood", "bench_wood", "stool_wood", "decal_palsticker_pinkcat", "stool_high_wood", "counter_wood", "rug_wood", "shelf_hang02_wood", "ivy01", "ivy02", "ivy03", "chair01_wood", "box01_stone", "barrel01_iron", "barrel02_iron", "barrel03_iron", "cablecoil01_iron", "chair01_iron", "chair02_iron", "clock01_wall_iron", "garbagebag_iron", "goalsoccer_iron", "machinegame01_iron", "machinevending01_iron", "pipeclay01_iron", "signexit_ceiling_iron", "signexit_wall_iron", "sofa01_iron", "sofa02_iron", "stool01_iron", "tablecircular01_iron", "tableside01_iron", "tablesquare01_iron", "tablesquare02_iron", "tire01_iron", "trafficbarricade01_iron", "trafficbarricade02_iron", "trafficbarricade03_iron", "trafficbarricade04_iron", "trafficbarricade05_iron", "trafficcone01_iron", "trafficcone02_iron", "trafficcone03_iron", "trafficlight01_iron", "bathtub_stone", "chair01_stone", "chair02_stone", "clock01_stone", "curtain01_wall_stone", "desk01_stone", "globe01_stone", "mirror01_stone", "mirror02_stone", "mirror01_wall_stone", "partition_stone", "piano01_stone", "piano02_stone", "rug01_stone", "rug02_stone", "rug03_stone", "rug04_stone", "sofa01_stone", "sofa02_stone", "sofa03_stone", "stool01_stone", "stove01_stone", "tablecircular01_stone", "tabledresser01_stone", "tablesink01_stone", "toilet01_stone", "toiletholder01_stone", "towlrack01_stone", "plant01_plant", "plant02_plant", "plant03_plant", "plant04_plant", "television01_iron", "desk01_iron", "trafficsign01_iron", "trafficsign02_iron", "trafficsign03_iron", "trafficsign04_iron", "chair01_pal">>>>,
  <<"PalMapObjectProductItemModel", <<"stonepit", "well", "stationdeforest2">>>>,
  <<"PalMapObjectRecoverOtomoModel", <<"recoverotomo">>>>,
  <<"PalMapObjectPalEggModel", <<"palegg", "palegg_fire", "palegg_water", "palegg_leaf", "palegg_electricity", "palegg_ice", "palegg_earth", "palegg_dark", "palegg_dragon">>>>,
  <<"PalMapObjectHatchingEggModel", <<"hatchingpalegg">>>>,
  <<"PalMapObjectTreasureBoxModel", <<"treasurebox">>>>,
  <<"PalMapObjectDoorModel", <<"wooden_doorwall", "stone_doorwall", "metal_doorwall", "wood_gate", "stone_gate", "metal_gate">>>>,
  <<"PalMapObjectCharacterStatusOperatorModel", <<"buildablegoddessstatue">>>>,
  <<"PalMapObjectAmusementModel", <<"spa", "spa2">>>>,
  <<"PalMapObjectHeatSourceModel", <<"heater", "electricheater", "cooler", "electriccooler">>>>,
  <<"PalMapObjectTorchModel", <<"torch", "walltorch", "light_fireplace01", "light_fireplace02">>>>,
  <<"PalMapObjectLampModel", <<"lamp", "ceilinglamp", "largelamp", "largeceilinglamp", "light_floorlamp01", "light_floorlamp02", "light_lightpole01", "light_lightpole02", "light_lightpole03", "light_lightpole04", "light_candlesticks_top", "light_candlesticks_wall">>>>,
  <<"PalMapObjectBreedFarmModel", <<"breedfarm">>>>,
  <<"PalMapObjectRepairItemModel", <<"repairbench">>>>,
  <<"PalMapObjectBaseCampPassiveEffectModel", <<"toolboxv1", "toolboxv2", "fountain", "silo", "transmissiontower", "flowerbed", "stump", "miningtool", "cauldron", "snowman", "olympiccauldron">>>>,
  <<"PalMapObjectBaseCampPassiveWorkHardModel", <<"basecampworkhard">>>>,
  <<"PalMapObjectItemChest_AffectCorruption", <<"coolerbox", "refrigerator">>>>,
  <<"PalMapObjectDamagedScarecrowModel", <<"damagedscarecrow">>>>,
  <<"PalMapObjectSignboardModel", <<"signboard">>>>,
  <<"PalMapObjectBaseCampWorkerDirectorModel", <<"basecampbattledirector">>>>,
  <<"PalMapObjectMonsterFarmModel", <<"monsterfarm">>>>
>>
===============================================================================
