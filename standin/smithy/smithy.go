package smithy
