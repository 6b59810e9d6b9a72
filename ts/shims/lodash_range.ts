import { range } from './lodash'; export default range;
