"""The columns of the LTP and STP exports, as documented: what each of them sums (frozen; the oracle of P19)."""

# name: (kind, unit, installation category, fuel category, consumer categories, producer categories, emission, inverted)
LTP = {
    'turbineFuelGasConsumption': ('fuel', 'Sm3', 'FIXED', 'FUEL-GAS', ['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'], None, None, False),
    'flareGasConsumption': ('fuel', 'Sm3', 'FIXED', None, ['FLARE'], None, None, False),
    'engineDieselConsumption': ('fuel', 'L', 'FIXED', 'DIESEL', None, None, None, False),
    'engineNoCo2TaxDieselConsumption': ('fuel', 'L', 'MOBILE', 'DIESEL', None, None, None, False),
    'boilerFuelGasConsumption': ('fuel', 'Sm3', 'FIXED', 'FUEL-GAS', ['BOILER'], None, None, False),
    'boilerDieselConsumption': ('fuel', 'L', 'FIXED', 'DIESEL', ['BOILER'], None, None, False),
    'heaterFuelGasConsumption': ('fuel', 'Sm3', 'FIXED', 'FUEL-GAS', ['HEATER'], None, None, False),
    'heaterDieselConsumption': ('fuel', 'L', 'FIXED', 'DIESEL', ['HEATER'], None, None, False),
    'turbineFuelGasCo2Mass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'], None, 'co2', False),
    'flareGasCo2Mass': ('emission', 't', 'FIXED', None, ['FLARE'], None, 'co2', False),
    'engineDieselCo2Mass': ('emission', 't', 'FIXED', 'DIESEL', None, None, 'co2', False),
    'engineNoCo2TaxDieselCo2Mass': ('emission', 't', 'MOBILE', 'DIESEL', None, None, 'co2', False),
    'boilerFuelGasCo2Mass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['BOILER'], None, 'co2', False),
    'boilerDieselCo2Mass': ('emission', 't', 'FIXED', 'DIESEL', ['BOILER'], None, 'co2', False),
    'heaterFuelGasCo2Mass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['HEATER'], None, 'co2', False),
    'heaterDieselCo2Mass': ('emission', 't', 'FIXED', 'DIESEL', ['HEATER'], None, 'co2', False),
    'co2VentingMass': ('emission', 't', 'FIXED', None, ['COLD-VENTING-FUGITIVE'], None, 'co2', False),
    'turbineFuelGasNoxMass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'], None, 'nox', False),
    'flareGasNoxMass': ('emission', 't', 'FIXED', None, ['FLARE'], None, 'nox', False),
    'engineDieselNoxMass': ('emission', 't', 'FIXED', 'DIESEL', None, None, 'nox', False),
    'engineNoCo2TaxDieselNoxMass': ('emission', 't', 'MOBILE', 'DIESEL', None, None, 'nox', False),
    'boilerFuelGasNoxMass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['BOILER'], None, 'nox', False),
    'boilerDieselNoxMass': ('emission', 't', 'FIXED', 'DIESEL', ['BOILER'], None, 'nox', False),
    'heaterFuelGasNoxMass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['HEATER'], None, 'nox', False),
    'heaterDieselNoxMass': ('emission', 't', 'FIXED', 'DIESEL', ['HEATER'], None, 'nox', False),
    'turbineFuelGasNmvocMass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'], None, 'nmvoc', False),
    'flareGasNmvocMass': ('emission', 't', 'FIXED', None, ['FLARE'], None, 'nmvoc', False),
    'engineDieselNmvocMass': ('emission', 't', 'FIXED', 'DIESEL', None, None, 'nmvoc', False),
    'engineNoCo2TaxDieselNmvocMass': ('emission', 't', 'MOBILE', 'DIESEL', None, None, 'nmvoc', False),
    'boilerFuelGasNmvocMass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['BOILER'], None, 'nmvoc', False),
    'boilerDieselNmvocMass': ('emission', 't', 'FIXED', 'DIESEL', ['BOILER'], None, 'nmvoc', False),
    'heaterFuelGasNmvocMass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['HEATER'], None, 'nmvoc', False),
    'heaterDieselNmvocMass': ('emission', 't', 'FIXED', 'DIESEL', ['HEATER'], None, 'nmvoc', False),
    'coldVentAndFugitivesNmvocMass': ('emission', 't', 'FIXED', None, ['COLD-VENTING-FUGITIVE'], None, 'nmvoc', False),
    'coldVentAndFugitivesNoCo2TaxNmvocMass': ('emission', 't', 'MOBILE', None, ['COLD-VENTING-FUGITIVE'], None, 'nmvoc', False),
    'storageNmvocMass': ('emission', 't', 'FIXED', None, ['STORAGE'], None, 'nmvoc', False),
    'loadingNmvocMass': ('emission', 't', 'FIXED', None, ['LOADING'], None, 'nmvoc', False),
    'turbineFuelGasCh4Mass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'], None, 'ch4', False),
    'flareGasCh4Mass': ('emission', 't', 'FIXED', None, ['FLARE'], None, 'ch4', False),
    'engineDieselCh4Mass': ('emission', 't', 'FIXED', 'DIESEL', None, None, 'ch4', False),
    'engineNoCo2TaxDieselCh4Mass': ('emission', 't', 'MOBILE', 'DIESEL', None, None, 'ch4', False),
    'boilerFuelGasCh4Mass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['BOILER'], None, 'ch4', False),
    'boilerDieselCh4Mass': ('emission', 't', 'FIXED', 'DIESEL', ['BOILER'], None, 'ch4', False),
    'heaterFuelGasCh4Mass': ('emission', 't', 'FIXED', 'FUEL-GAS', ['HEATER'], None, 'ch4', False),
    'heaterDieselCh4Mass': ('emission', 't', 'FIXED', 'DIESEL', ['HEATER'], None, 'ch4', False),
    'coldVentAndFugitivesCh4Mass': ('emission', 't', 'FIXED', None, ['COLD-VENTING-FUGITIVE'], None, 'ch4', False),
    'coldVentAndFugitivesNoCo2TaxCh4Mass': ('emission', 't', 'MOBILE', None, ['COLD-VENTING-FUGITIVE'], None, 'ch4', False),
    'storageCh4Mass': ('emission', 't', 'FIXED', None, ['STORAGE'], None, 'ch4', False),
    'loadingCh4Mass': ('emission', 't', 'FIXED', None, ['LOADING'], None, 'ch4', False),
    'loadedAndStoredOil': ('oil', 'Sm3', 'FIXED', None, ['LOADING'], None, None, False),
    'gasTurbineGeneratorConsumption': ('generated', 'GWh', 'FIXED', None, None, ['TURBINE-GENERATOR'], None, False),
    'gasTurbineCompressorConsumption': ('power', 'GWh', 'FIXED', None, ['GAS-DRIVEN-COMPRESSOR'], None, None, False),
    'offshoreWindConsumption': ('power', 'GWh', 'FIXED', None, ['OFFSHORE-WIND'], None, None, True),
    'fromShoreConsumption': ('power', 'GWh', None, None, None, ['POWER-FROM-SHORE'], None, False),
    'powerSupplyOnshore': ('generated', 'GWh', None, None, None, ['POWER-FROM-SHORE'], None, False),
    'fromShorePeakMaximum': ('max', 'MW', None, None, None, ['POWER-FROM-SHORE'], None, False),
    'steamTurbineGeneratorConsumption': ('power', 'GWh', 'FIXED', None, ['STEAM-TURBINE-GENERATOR'], None, None, True),
}

STP = {
    'co2Emission': ('emission', 't', 'FIXED', None, None, None, 'co2', False),
    'co2FromMobileUnits': ('emission', 't', 'MOBILE', None, None, None, 'co2', False),
    'methaneEmission': ('emission', 't', 'FIXED', None, None, None, 'ch4', False),
    'flareGasCo2Mass': ('emission', 't', 'FIXED', None, ['FLARE'], None, 'co2', False),
    'flareGasCh4Mass': ('emission', 't', 'FIXED', None, ['FLARE'], None, 'ch4', False),
    'powerSupplyOnshore': ('generated', 'GWh', None, None, None, ['POWER-FROM-SHORE'], None, False),
    'flare': ('fuel', 'Sm3', 'FIXED', None, ['FLARE'], None, None, False),
}
